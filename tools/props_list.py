NOT_APPLICABLE = []
MON = "runtime monitor of real executions against an independent oracle"

prop("P01", "Form encoding says exactly what the message says",
     "A message encoded as an application/x-www-form-urlencoded string has exactly one parameter per present field, named as the field, whose percent-decoded value is the field's text, or the field's JSON when it is a list, object, tuple or enum; optional fields the message leaves out produce no parameter. Decoding the string as the same message type returns an equal message. No text in a field name or value (reserved characters, quotes, percent signs, control characters, any Unicode) can add, drop, split or alter a parameter. A message with a value that cannot be serialized gives an error, never part of a message.",
     ["inputs"], "all serializable messages made of text, numbers, booleans, lists, maps with text keys, tuples, enums, optional, nested and flattened fields, with arbitrary Unicode text",
     "Three unit tests encode or decode one fixed struct and enum each; they reach a handful of characters and no hostile text, nested list, map or tuple combination.",
     ["crates/core/src/urlencode.rs", "crates/core/src/urlencode/ser.rs"],
     [("to_string / Serializer", "crates/core/src/urlencode/ser.rs"), ("from_str", "crates/core/src/urlencode.rs")],
     MON + ": independent form reader + round trip on generated messages",
     "Exploration: every ASCII character and significant pair in each position, then tens of thousands of random messages per run, each judged parameter by parameter.")

prop("P02", "Form decoding is exact and refuses malformed input",
     "Decoding a form string returns each parameter's exact percent-decoded value (hex digits of either case), whatever the order of the parameters and whichever characters the sender chose to escape, with numbers, booleans, lists and objects read as JSON. A string with a required field missing or repeated, a part that is not a name=value pair, bytes that are not UTF-8, or a number, boolean, list, object or enumerated value of the wrong shape gives an error, never a message with made-up, truncated or misplaced values; unknown parameters are ignored. Decoding returns, and does not panic, on any text.",
     ["inputs"], "all form strings: every escaping and ordering of every message, mutated and arbitrary text",
     "One unit test decodes one well-formed string; error handling and alternate escapings are never exercised.",
     ["crates/core/src/urlencode.rs", "crates/core/src/urlencode/error.rs"],
     [("from_str", "crates/core/src/urlencode.rs")],
     MON + ": forms written by an independent encoder, malformed forms, panic monitor",
     "Exploration: tens of thousands of differently escaped forms per run compared with the values they were written from; plus mutated and arbitrary text.")

prop("P03", "Generated codes, tokens and nonces are uniform, unique and well formed",
     "Every generated authorization code, state key, access token and nonce, notification and transaction id is a 43-character unpadded base64url string carrying 32 characters each drawn independently and uniformly from the URL-safe set; every transaction PIN is six independent uniform decimal digits. No two generated identifiers coincide or are related (shared prefix, counter, reuse) whether drawn in sequence, on concurrent threads or in separately started processes.",
     ["histories", "schedules"], "all sequences of draws on any number of threads and processes",
     "No test draws an identifier; uniformity, independence and cross-thread/process uniqueness are statements about whole populations of draws.",
     ["crates/core/src/gen.rs", "crates/core/src/pkce.rs"],
     [("random string and PIN generators", "crates/core/src/gen.rs")],
     "runtime monitor: recorded draw log from threads released together and parallel processes, offline uniqueness and chi-square checks",
     "Exploration, statistical: hundreds of thousands of draws per run; biases below the chi-square limit are invisible.")

prop("P04", "PKCE challenge is the S256 transform and verifiers are well formed",
     "The code challenge of any verifier text is the unpadded base64url form of the SHA-256 of its bytes, so a challenge matches exactly the verifier it was made from. Every generated code verifier is 43 to 128 characters long, its length and each of its characters drawn independently and uniformly from those lengths and the unreserved characters, and never repeats.",
     ["inputs", "histories"], "all verifier texts (any length, any Unicode) and all generated verifiers",
     "No test touches PKCE; equality with the standard transform must hold for every text.",
     ["crates/core/src/pkce.rs", "crates/core/src/gen.rs"],
     [("code_verifier / code_challenge", "crates/core/src/pkce.rs")],
     MON + ": independently computed SHA-256/base64url and injectivity over the log",
     "Exploration: every length 0..300 plus tens of thousands of arbitrary texts.")

prop("P05", "One-or-many and string-or-object values keep contents and JSON shape",
     "A value that may be one item or a list holds, after any sequence of additions, exactly the added items in order; a single item is written to JSON bare, a list as a list (whatever its length), and both are read back as the same value. A value that may be text or an object is written as that text or that object, read back equal, and reports which of the two it is.",
     ["histories", "inputs"], "all histories of additions to a single item or to a list of any length, and all item contents",
     "No existing test adds to such a value or reads one back.",
     ["crates/core/src/lib.rs"],
     [("Kind, Quota", "crates/core/src/lib.rs")],
     MON + ": list model run in lock step, JSON shape comparison",
     "Exploration: tens of thousands of addition histories per run.")

prop("P06", "A credential satisfies constraints exactly when every field matches",
     "A credential satisfies a presentation definition's constraints exactly when each constraint field is met: one of the field's paths selects something in the credential whose (first) value passes the field's filter, if it has one, or the field is optional and none of its paths selects anything. A const filter passes text equal to it, a pattern filter text its regular expression matches (either takes a number or boolean as its JSON text, and also passes a list with such a text directly in it), a format filter only a valid date or RFC 3339 date-time text as named. No filter looks further into lists and objects. Constraints without fields are satisfied by every credential.",
     ["inputs", "configurations"], "all credentials and all constraint sets over JSONPath expressions with const, pattern and format filters",
     "Three unit tests apply one filter of each kind to one fixed credential.",
     ["crates/dif-exch/src/matcher.rs", "crates/dif-exch/src/lib.rs"],
     [("Constraints::satisfied / match_field / filter matching", "crates/dif-exch/src/matcher.rs")],
     MON + ": three-valued reference evaluator of Presentation Exchange",
     "Exploration: 120k generated (credential, constraints) pairs per quick run. Verdicts the standard leaves open are not judged.")

prop("P07", "Constraint evaluation is total, stable and unaffected by storage",
     "Evaluating any constraints against any JSON value ends with satisfied, not satisfied or an error, and never panics, whatever the paths, regular expressions, formats or credential contents. Asking again gives the same answer, as does asking after the constraints were stored as JSON and read back, or with a field repeated. Reading any text as a definition or submission never panics.",
     ["inputs", "histories"], "all constraint documents including malformed paths, invalid or pathological regular expressions and unknown formats, all JSON credentials",
     "The unit tests use well-formed constraints on a well-formed credential only.",
     ["crates/dif-exch/src/matcher.rs", "crates/dif-exch/src/lib.rs"],
     [("Constraints::satisfied", "crates/dif-exch/src/matcher.rs"), ("serde models", "crates/dif-exch/src/lib.rs")],
     "runtime monitor: panic capture and metamorphic answer monitors on hostile input",
     "Exploration: 60k hostile cases per quick run.")

prop("P08", "Exchange documents survive JSON; incomplete ones are refused",
     "Every presentation definition and submission read from JSON and written back is the same JSON document, member for member, with absent optional members staying absent. The order of members does not matter. A definition or submission without a mandatory member, with a member of the wrong type, or followed by other text is refused, and so is a filter that has a member the library does not implement, more than one condition, no condition, or a condition of the wrong type.",
     ["inputs"], "all definition and submission documents with every combination of optional members",
     "No test reads a submission or a definition with optional members, and none checks refusal.",
     ["crates/dif-exch/src/lib.rs"],
     [("serde models of definition, filter and submission", "crates/dif-exch/src/lib.rs")],
     MON + ": document-equality and refusal monitors",
     "Exploration: 20k documents per quick run.")

prop("P09", "Request macros build exactly the request the literal describes",
     "Each request macro (offer, authorization, token, credential) expands any supported JSON-like literal into a request whose fields equal the literal's values: every list item and nested member present, in order, unaltered, none dropped, and defaults only for members left out. Literals may take values from expressions in scope, each worked out once.",
     ["programs", "inputs"], "all literals of the four macros over every supported member, grant, proof and list length",
     "The macro tests compile four literals (and cannot be built offline); expansion of other member combinations is never seen.",
     ["crates/macros/src/lib.rs", "crates/macros/src/create_offer.rs", "crates/macros/src/authorization.rs", "crates/macros/src/token.rs", "crates/macros/src/credential.rs", "crates/macros/src/parse.rs"],
     [("macro expansion", "crates/macros/src/*.rs")],
     "runtime monitor: generated programs using the macros, expanded requests compared at run time with the literal",
     "Exploration: hundreds of generated macro invocations compiled and run per quick check.")

prop("P10", "Request macros refuse wrong literals at compile time, naming the problem",
     "A macro literal that lacks a mandatory member, has a top-level member the request (or its grant) does not define, an unsupported grant, format, detail or proof type, a value of the wrong type or broken syntax does not compile, while every correct literal does. A missing or unexpected member is named in the compiler's message, and the macro reports errors rather than panicking.",
     ["programs", "inputs"], "all single mistakes in literals of the four macros",
     "The existing macro tests hold only correct literals.",
     ["crates/macros/src/create_offer.rs", "crates/macros/src/authorization.rs", "crates/macros/src/token.rs", "crates/macros/src/credential.rs", "crates/macros/src/parse.rs"],
     [("literal parsing and field extraction", "crates/macros/src/parse.rs")],
     "runtime monitor: the real macro run by the compiler on generated literals, diagnostics log checked offline",
     "Exploration: hundreds of mutated literals per quick check.")

prop("P11", "Credential and presentation proofs say what was signed and cannot be forged",
     "A credential or presentation made into a JWT proof has the claims of the document it was made from (issuer or holder, subject, id, issuance and expiry, nonce, audience) and is signed by the named key; verifying the token returns exactly that document. A token whose header, payload or signature was altered, that is unsigned, truncated, signed by another key, or of the other kind is refused. Verification never panics on any text.",
     ["inputs"], "all credentials and presentations; every single-part alteration of their tokens; arbitrary text",
     "The repository's tests build one proof and do not attack it.",
     ["crates/w3c-vc/src/proof.rs", "crates/w3c-vc/src/proof"],
     [("create / verify", "crates/w3c-vc/src/proof.rs")],
     MON + ": independent token reader, forged-token workload, panic monitor",
     "Exploration: thousands of documents and alterations per quick run. The signature scheme is a stand-in with exact verification.")

prop("P12", "Credential and presentation documents survive the model and its builders",
     "A W3C credential or presentation JSON document read into the model and written back says the same thing (one or many, string or object forms, extra claims, evidence, status, terms, proofs, languages). The builders produce exactly what was added to them and refuse documents lacking a required part. Text in a language is found by its tag. No JSON text makes reading panic.",
     ["inputs"], "all well-formed credential and presentation documents, builder call sequences, hostile JSON",
     "The repository's tests read and write one document each.",
     ["crates/w3c-vc/src/model"],
     [("VerifiableCredential", "crates/w3c-vc/src/model/vc.rs"), ("VerifiablePresentation", "crates/w3c-vc/src/model/vp.rs")],
     MON + ": generated documents compared as JSON after a round trip, builder log replayed",
     "Exploration: thousands of documents per quick run.")

prop("P13", "An ISO mdoc holds exactly the dataset, with matching digests, signed",
     "The mdoc made from a dataset holds every element of every namespace once with its value and nothing else; digest ids are unique in a namespace and in range; each digest in the mobile security object is the SHA-256 of the encoded item; each item has its own random salt of at least 16 bytes; the security object is version 1.0 of an mDL, signed now, and its validity dates are well ordered and current; the issuer's signature covers the mobile security object. A dataset that is not made of namespaces, or a signer that fails or cannot sign mdocs, gives an error.",
     ["inputs", "fault_sequences"], "all datasets (any JSON values and names), signers and signing failures",
     "The repository's test makes one mdoc and does not check its digests.",
     ["crates/iso-mdl/src"],
     [("to_credential", "crates/iso-mdl/src/lib.rs")],
     MON + ": independent CBOR/COSE reader recomputing every digest and signature",
     "Exploration: thousands of mdocs per quick run. Non-integer numbers and device key: see known findings.")

prop("P14", "A status list says of every credential what its log says",
     "The bitstring status list made from a log of issued credentials has, at every index, exactly the status that was logged for the credential with that index and nothing at any other; it is at least 131072 bits, GZIP compressed and multibase encoded; an entry outside the list is refused rather than misplaced. The status list credential names its issuer, purpose and list. Status errors are well-formed JSON with the detail they were given.",
     ["inputs", "histories"], "all logs of status entries, positions, purposes and sizes, any error text",
     "The repository's test decodes one generated list.",
     ["crates/status/src"],
     [("bitstring", "crates/status/src/bitstring.rs")],
     MON + ": independent multibase/GZIP decoder, bit by bit comparison with the log",
     "Exploration: hundreds of lists per quick run, every bit compared.")

ISS = ["vercre-issuer/src/state.rs", "vercre-issuer/src/lib.rs"]
SIM = "real issuer endpoints driven over a recording, fault-injecting provider under a virtual clock"

prop("P15", "Credential offers say exactly what was asked, fetched once if by reference",
     "The issuer makes an offer for exactly the configurations, subject, grants and issuer named in the create-offer request: every requested configuration id and grant appears in the offer and nothing else does. A pre-authorized offer carries a fresh code, and asks for a transaction code of the announced form exactly when one was requested and returned; where the issuer lists authorization servers each grant names one of them. An offer is refused when it names no configuration, an unsupported one, an unknown issuer, a grant the authorization server does not support, or (pre-authorized) no subject, an unknown one or one not authorized for a configuration. An offer sent by reference is returned by the offer endpoint once, unchanged, for its own issuer and id only.",
     ["inputs", "histories", "configurations"], "all create-offer requests, issuer and server configurations, and sequences of fetches",
     "The repository's issuer tests need dependencies that are not available, and exercise one configuration and happy paths only.",
     ["vercre-issuer/src/create_offer.rs", "vercre-issuer/src/credential_offer.rs"] + ISS,
     [("create_offer", "vercre-issuer/src/create_offer.rs"), ("credential_offer", "vercre-issuer/src/credential_offer.rs")],
     MON + ": " + SIM, "Exploration: thousands of generated offers and configurations per quick run; each valid one judged member by member, each single fault judged refused.")

prop("P16", "Authorization codes are given only to entitled clients and requests",
     "The authorization endpoint issues a code exactly when the request is sound: a registered client holding the authorization_code grant and only scopes the server supports, on a server that supports that grant, a response type, redirect URI and S256 challenge the client registered or the server supports, a subject entitled to every requested item, authorization details and scope items of which all details and at least one scope item (where a scope is given) name a credential the issuer offers (with only supported claims and no mandatory claim left out), and, when it answers an offer, the offer's own unexpired and unused issuer state and subject. The code entitles the holder to exactly what was requested, each credential once (a detail takes precedence over a scope item naming the same credential). The same holds for a request pushed first and then referred to by its request_uri, which is fresh, works once and expires; a request whose client, redirect URI, response type, challenge or grant is wrong is refused already when pushed; a server that requires pushed requests refuses direct ones.",
     ["inputs", "histories", "configurations"], "all authorization and pushed requests over all clients, servers, subjects, offers and histories",
     "The repository's tests send a few fixed correct requests.",
     ["vercre-issuer/src/authorize.rs", "vercre-issuer/src/par.rs"] + ISS,
     [("authorize / par verification", "vercre-issuer/src/authorize.rs"), ("par", "vercre-issuer/src/par.rs")],
     MON + ": " + SIM, "Exploration: thousands of requests per quick run, each sound or with one planted flaw of 25 kinds.")

prop("P17", "Access tokens are given only to whoever the code was issued to",
     "The token endpoint exchanges a code exactly when the request proves it is the code's: the code is known, unexpired and of the kind presented; the authorization-code client shows the PKCE verifier of the challenge, the same client id and the same redirect URI; the pre-authorized client shows the transaction code when one was set and identifies itself unless the server allows anonymous access; client and server support the grant. Any other request is refused. The token response names exactly the configurations and credential identifiers the subject was authorized for (narrowed to the details asked for in the request), and details never authorized, or with claims the credential does not have or without a mandatory one, are refused.",
     ["inputs", "histories", "configurations"], "all token requests against all issued codes, with every single deviation",
     "The repository's tests exchange a few codes correctly.",
     ["vercre-issuer/src/token.rs"] + ISS,
     [("token verification and retain_details", "vercre-issuer/src/token.rs")],
     MON + ": " + SIM, "Exploration: thousands of exchanges per quick run, sound or with one flaw of 20 kinds.")

prop("P18", "A code is exchanged at most once; separate flows do not disturb each other",
     "However token requests are ordered, repeated or interleaved with other issuances, and whichever provider call fails, one authorization or pre-authorized code leads to at most one access token; a stored offer is handed out at most once. Flows of different users running at the same time each get the grant they would get alone.",
     ["schedules", "histories", "fault_sequences"], "all interleavings at provider calls of up to several concurrent exchanges, all replay histories, all single provider faults",
     "Existing tests run one flow, once, on one task.",
     ["vercre-issuer/src/token.rs", "vercre-issuer/src/credential_offer.rs"] + ISS,
     [("state get / purge", "vercre-issuer/src/token.rs")],
     "runtime monitor: deterministic executor choosing the interleaving at every provider call, offline exactly-once check of the event log",
     "Exploration: thousands of schedules per quick run. Two exchanges whose reads both precede the purge both succeed: a known finding (the store has no atomic take); every other duplication is reported.")

prop("P19", "Credentials are issued only for valid tokens and granted credentials",
     "The credential endpoint answers with a credential or a deferral exactly when the access token is known, unexpired, really an access token (not a code, request_uri, issuer state or notification id), issued by the same issuer, and the requested credential (by identifier or by format) is among those granted with that token. A token stays usable for its advertised lifetime and no longer, for every granted credential, any number of times.",
     ["inputs", "histories"], "all credential requests with genuine, mangled, expired or substituted tokens and identifiers, at all times",
     "The repository's tests request one granted credential at once.",
     ["vercre-issuer/src/credential.rs"] + ISS,
     [("credential verification, request resolution", "vercre-issuer/src/credential.rs")],
     MON + ": " + SIM, "Exploration: thousands of requests per quick run.")

prop("P20", "Credentials are bound to keys whose possession was just proved",
     "A credential is issued only when each presented proof is a proof JWT of the right type, signed by the key it names, for this issuer, with the token's current unexpired nonce; a missing, empty, replayed, altered, foreign or stale proof is refused with an invalid_proof error carrying a fresh nonce, and a proof made with that nonce is accepted for as long as was announced. Every accepted request renews the nonce and its life, and the credentials are bound to exactly the proved keys.",
     ["inputs", "histories"], "all single and multiple proofs, sound or with any one flaw, in any sequence",
     "The repository's tests present one correct proof.",
     ["vercre-issuer/src/credential.rs", "crates/openid/src/issuer.rs"],
     [("proof verification", "vercre-issuer/src/credential.rs")],
     MON + ": " + SIM, "Exploration: thousands of proofs per quick run. The signature scheme is a stand-in with exact verification.")

prop("P21", "Issued credentials hold exactly the subject's authorized claims",
     "Every issued credential (JWT or ISO mdoc, requested by identifier or format) carries the claims the subject database has for that subject and credential, narrowed to the claims that were authorized; every type of its definition, its issuer, displayed name and description, subject id (the proved key's holder), status and validity dates; nothing of another subject or credential; and is signed by the issuer over exactly those contents. An mdoc's value digests match its items.",
     ["inputs", "histories"], "all subjects, datasets, credential formats, claim narrowings and request forms",
     "The repository's tests compare one credential with a snapshot.",
     ["vercre-issuer/src/credential.rs", "crates/w3c-vc/src", "crates/iso-mdl/src"],
     [("credential generation", "vercre-issuer/src/credential.rs")],
     MON + ": independent JWT and mdoc readers on every credential issued",
     "Exploration: tens of thousands of credentials per quick run. Claims asked for in a token request's details do not narrow the credential: known finding.")

prop("P22", "A deferred credential is delivered once ready, once, to its holder only",
     "When the credential is not ready the endpoint answers with a fresh transaction id. Polling it with the same token while it is still pending reports pending and loses nothing; once ready the poll returns the credential that was requested, bound to the key proved then, even if nonces were renewed in between; afterwards the transaction is gone. A poll that fails midway loses nothing. Unknown transactions and tokens that do not belong or have expired are refused.",
     ["histories"], "all sequences of deferral, polls, other issuances, time passing and readiness",
     "The repository's test defers once and polls once.",
     ["vercre-issuer/src/deferred.rs", "vercre-issuer/src/credential.rs"] + ISS,
     [("deferred", "vercre-issuer/src/deferred.rs")],
     MON + ": " + SIM, "Exploration: thousands of histories per quick run.")

prop("P23", "Notifications, client registration and metadata behave as documented",
     "A notification with a known notification id is accepted and reaches the issuer with its event; any other is refused. A client is registered only with a valid access token, and the response and the stored client hold the submitted metadata under a new client id. The issuer and server metadata endpoints return the configured document of the asked-for issuer, and refuse unknown ones.",
     ["inputs", "histories"], "all notifications, registrations and metadata requests",
     "The repository's tests cover one correct call each.",
     ["vercre-issuer/src/notification.rs", "vercre-issuer/src/register.rs", "vercre-issuer/src/metadata.rs", "vercre-issuer/src/oauth_server.rs"],
     [("notification / register / metadata", "vercre-issuer/src/notification.rs")],
     MON + ": " + SIM, "Exploration: thousands of calls per quick run. A repeated notification is refused: known finding.")

prop("P24", "Failures become OAuth errors, leak no grant and never panic",
     "When any provider call fails at any point of an issuance flow, the endpoint returns an error, not a grant, credential or panic; what succeeded before stays usable or is refused, never duplicated. No request built from any JSON, with any hostile strings, makes an endpoint panic.",
     ["fault_sequences", "inputs"], "every provider call of every endpoint failing; hostile requests to every endpoint",
     "The existing test provider never fails.",
     ["vercre-issuer/src"],
     [("endpoint handlers", "vercre-issuer/src/lib.rs")],
     "runtime monitor: systematic fault injection at each provider call, panic and error monitors",
     "Exploration: each endpoint with each of its provider calls failing, many configurations.")

VSIM = "real verifier endpoints driven over a recording, fault-injecting provider under a virtual clock"

prop("P25", "A presentation is accepted exactly when it answers a live request",
     "A response is accepted exactly when it names a request the verifier made, which has not expired (5 minutes) and was not answered yet; every presentation in it is signed with the key it names, for this verifier and this request's nonce; the submission is for this request's definition; and every requested credential is mapped, by one path, to one credential of an allowed format that carries a genuine issuer signature, is within its validity dates and satisfies the constraints. Anything else is refused and uses nothing up. An accepted response consumes the request and no other.",
     ["inputs", "histories", "fault_sequences", "schedules"], "all requests of one to three credentials, all placements over one to three presentations, every single flaw, provider failures, time and replays",
     "The repository's test sends one correct response.",
     ["vercre-verifier/src/response.rs", "vercre-verifier/src/state.rs", "crates/w3c-vc/src/proof.rs", "crates/dif-exch/src/matcher.rs"],
     [("response", "vercre-verifier/src/response.rs")],
     MON + ": " + VSIM, "Exploration: thousands of requests with five flawed responses each per quick run. Unsigned object presentations and racing duplicates: known findings. Holder binding, issuer trust and revocation are left to verifier policy by the code and are not judged.")

prop("P26", "Presentation requests say what was asked, are fresh, signed and private",
     "A presentation request asks for exactly the credentials and purpose it was created with, names the formats and algorithms accepted, carries the verifier's metadata and the address the answer goes to, and has a state, nonce and definition id never used before. Handed over by reference it is the stored request, signed by the verifier, given only under that verifier's id and only until it expires; by value it cannot be fetched. A request for nothing, for an unknown verifier, or during a provider failure is not made. Metadata is the asked-for verifier's.",
     ["inputs", "histories", "fault_sequences"], "all descriptors, purposes, verifiers, device flows, fetches, times and provider failures",
     "The repository's tests create one request per device flow.",
     ["vercre-verifier/src/create_request.rs", "vercre-verifier/src/request_object.rs", "vercre-verifier/src/metadata.rs"],
     [("create_request / request_object / metadata", "vercre-verifier/src/create_request.rs")],
     MON + ": " + VSIM, "Exploration: thousands of requests per quick run.")

HSIM = "real wallet endpoints driven against the real issuer and verifier over a recording, fault-injecting, message-tampering provider"

prop("P27", "A wallet gets and keeps exactly the credentials its holder agreed to",
     "An offer shows the holder exactly what is on offer. Whichever way the flow goes (pre-authorized with or without PIN, authorization code from an offer, started by the wallet with details or a scope), the wallet asks the issuer, in the name of this client, subject and flow, for what the holder accepted and nothing else, with a proof signed by its own key for that issuer at that time, ends up authorized for exactly that, and every credential it receives, singly or in a list, at once or deferred once or repeatedly, is kept in the flow and stored on save exactly as issued: the issuer's signed token, its contents, dates, display and logo, bound to the wallet's key. Credentials with a forged or missing signature are never kept. Saving stores each credential once and ends the flow when nothing is deferred; cancelling stores nothing and ends it.",
     ["inputs", "histories"], "all issuer configurations, offers, acceptances, narrowings, deferrals and interleaved flows of one wallet",
     "The repository's tests run one fixed happy path per flow.",
     ["vercre-holder/src/issuance", "vercre-holder/src/issuance.rs", "vercre-holder/src/credential.rs"],
     [("issuance endpoints", "vercre-holder/src/issuance.rs")],
     MON + ": " + HSIM, "Exploration: hundreds of histories (over a thousand credentials) per quick run. Claims narrowed before a pre-authorized token request are ignored by the issuer: known finding.")

prop("P28", "Wallet steps out of order or failing midway change nothing",
     "A step the flow is not ready for, for an unknown flow, or asking for what was not offered or granted, is refused: nothing is sent to the issuer, nothing is stored and no flow changes. When any provider call (other than fetching a logo) fails in the middle of a step, the step returns an error without panicking and the flow stays as it was, so that saving again later stores everything received, with nothing lost or altered.",
     ["histories", "fault_sequences"], "all orders of steps over interleaved flows, every provider call failing",
     "The repository's tests take every step in order, with a provider that never fails.",
     ["vercre-holder/src/issuance", "vercre-holder/src/issuance.rs"],
     [("issuance endpoints", "vercre-holder/src/issuance.rs")],
     MON + ": " + HSIM, "Exploration: hundreds of histories, thousands of wrong steps and hundreds of injected faults per quick run.")

prop("P29", "A wallet presents exactly what was requested, to whom, once authorized",
     "For a presentation request, by value or by reference, the wallet lists to the holder exactly the stored credentials that meet one of its descriptors. Nothing is sent before the holder authorizes it. Presenting then sends one response to the request's address, with its state and definition, holding one presentation signed by the holder for that verifier and nonce that contains none but the listed credentials, as issued, and maps every descriptor, under a submission identifier of its own, to a credential meeting it, which the verifier accepts. If a descriptor cannot be met nothing is sent. A tampered or unreadable request, a step out of order, an unknown flow or a provider failure is an error that sends and changes nothing. A status survives being written as text and read back.",
     ["inputs", "histories", "fault_sequences"], "all requests of one to three descriptors, stored credentials, request forms, orders of steps, tampering and provider failures",
     "The repository's tests present one credential for one descriptor.",
     ["vercre-holder/src/presentation", "vercre-holder/src/presentation.rs", "crates/w3c-vc/src/model/vp.rs"],
     [("presentation endpoints", "vercre-holder/src/presentation.rs")],
     MON + ": " + HSIM, "Exploration: hundreds of histories per quick run, each response opened and judged credential by credential.")

prop("P30", "An error response says which error it was, whatever its text",
     "Every OpenID error, whatever text it carries (quotes, backslashes, control characters, reserved characters, any Unicode, nothing at all), is one valid JSON object when displayed, serialized or turned into JSON, and one form string, each naming the specification's code for that error and carrying exactly the given description, c_nonce, its lifetime and the pending interval, and nothing else. No text in it can change the code or add a member.",
     ["inputs"], "all 22 errors with arbitrary text and numbers",
     "The unit tests write three errors with plain text.",
     ["crates/openid/src/error.rs", "crates/core/src/urlencode/ser.rs"],
     [("Error: Display / Serialize / to_json / to_querystring", "crates/openid/src/error.rs")],
     MON + ": independent JSON and form readers on generated errors",
     "Exploration: 44,000 errors per quick run, each judged in four forms.")

prop("P31", "Every OpenID message survives the wire unchanged",
     "Every message of the issuance and presentation protocols (offers, authorization, pushed, token, credential, deferred, notification and registration requests and responses, request objects, presentation responses, issuer, server, client, verifier and wallet metadata) that is read from a JSON document is written back as the same document: no member is lost, renamed, moved, defaulted or added. Those that travel as a form or inside a URL are read back from it as the same message, a QR code of an offer or request object carries exactly the given endpoint followed by its query string, and the specification's names are used for formats, grants, algorithms and flows.",
     ["inputs"], "all messages of the protocols, with every optional member present or absent and arbitrary text",
     "The repository's snapshots hold one example of some messages and are written, not read back.",
     ["crates/openid/src/issuer.rs", "crates/openid/src/verifier.rs", "crates/openid/src/oauth.rs"],
     [("message types", "crates/openid/src/issuer.rs")],
     MON + ": documents generated from the protocol grammar, compared member by member after reading and writing",
     "Exploration: 48,000 documents per quick run. Text that is itself a JSON object is not judged where a parameter may be text or an object.")


prop("P32", "Issuer metadata finds the credential asked for and admits only its claims",
     "An issuer's metadata decides what can be asked for. A set of claims is admitted for a credential exactly when every claim in it, at any depth, is one the credential's configuration offers and none the configuration marks mandatory, at any depth, is left out; a configuration that lists no claims admits any. A format is resolved to a configuration of that very format and type (doctype, vct), whatever claims either carries, and to none when there is none. Two authorizations name the same credential exactly when both give the same configuration id, or both the same format and type, whatever claims they carry. A format's name, and the claims a format or an authorization detail carries, are those written in it.",
     ["inputs", "configurations"], "all claim trees, credential configurations, issuer metadata and pairs of authorizations",
     "No test asks for claims that are nested, unsupported or missing, or looks up a format among several.",
     ["crates/openid/src/issuer.rs"],
     [("verify_claims", "crates/openid/src/issuer.rs"), ("credential_configuration_id", "crates/openid/src/issuer.rs"), ("CredentialAuthorization equality", "crates/openid/src/issuer.rs")],
     MON + ": a reference over the documents the metadata and requests were read from",
     "Exploration: 120,000 questions per quick run. Left open: nested claims asked for as if they were one, types listed in another order, formats without a type.")