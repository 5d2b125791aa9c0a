"""The properties: what is claimed (PROPS) and what is not (NA)."""

NOTE = ("Every path of the entry points named is covered, joined rather than enumerated; library calls outside the workspace "
        "are modelled (sa/models.py) or opaque. ")
RVP = "ic-response-verification/src/"
CVP = "ic-certificate-verification/src/"
ICP = "ic-certification/src/"
CBP = "ic-cbor/src/"
RIP = "ic-representation-independent-hash/src/"
HCP = "ic-http-certification/src/"
PROPS = [
 dict(id="C01", title="A version 2 response is accepted only behind the whole certification chain",
  statement="verify_request_response_pair reports success for version 2 only if the certificate in the IC-Certificate header was verified for the given canister, root key and time, its certified data equals the digest of the tree in that header, the tree contains the header's expression path and the hash of the IC-CertificateExpression header, and, unless that expression skips certification, the path continued with the hash of this request (empty when requests are not certified) and the hash of this response ends in the empty leaf of the same tree.",
  over=["inputs"], quant="every request, response, canister id, time, key and minimum version",
  why="The tests verify a few well-formed exchanges and a few broken ones; a check that is skipped or made on another value shows only for the forged input nobody wrote.",
  files=[RVP+"verification/verify_request_response_pair.rs", RVP+"validation/v2_validation.rs", RVP+"validation/common_validation.rs"],
  mech=[("v2_verification", RVP+"verification/verify_request_response_pair.rs"), ("validate_hashes", RVP+"validation/v2_validation.rs"), ("validate_tree", RVP+"validation/common_validation.rs")],
  note=NOTE+"Decides which checks every success exit depends on and on which values; that the callee checks themselves are right is C03-C18."),
 dict(id="C02", title="A version 1 response is accepted only if its body hash is certified",
  statement="verify_request_response_pair reports success for version 1 only if the certificate was verified for the given canister, key and time, its certified data equals the digest of the header's tree, and the hash in that tree under http_assets at the request path (or at /index.html when the request path is not found) equals the hash of the body decoded by its declared encoding, or of the raw body when an encoding is declared.",
  over=["inputs"], quant="every request, response, canister id, time and key",
  why="Tests reach a handful of assets; an accepted path that compares another value or skips the comparison needs a forged response to show.",
  files=[RVP+"verification/verify_request_response_pair.rs", RVP+"validation/v1_validation.rs", RVP+"validation/common_validation.rs"],
  mech=[("v1_verification", RVP+"verification/verify_request_response_pair.rs"), ("validate_body", RVP+"validation/v1_validation.rs")],
  note=NOTE+"Decides the facts every version 1 success exit carries."),
 dict(id="C07", title="Only what was certified is handed back to the caller",
  statement="A successful version 2 verification returns the response's status code and body, exactly the headers that entered the verified response hash plus the certificate header, and a successful skip returns no response at all. A successful version 1 verification returns the body and neither status code nor headers.",
  over=["inputs"], quant="every accepted request and response",
  why="Tests compare the result for a few responses; an uncertified header or status that leaks through for some certification needs another one.",
  files=[RVP+"verification/verify_request_response_pair.rs", RVP+"types/verified_response.rs"],
  mech=[("VerifiedResponse construction", RVP+"verification/verify_request_response_pair.rs")],
  note=NOTE+"Decides the provenance of every field of the returned value on every success exit."),
 dict(id="C08", title="No version downgrade",
  statement="A response is accepted only under the rules of the version its certificate header declares, which must be 1 or 2 and not below the caller's minimum, and the reported version is that one.",
  over=["inputs"], quant="every header version and every requested minimum",
  why="Tests try a few version and minimum pairs; the policy is over all 65536.",
  files=[RVP+"verification/verify_request_response_pair.rs"],
  mech=[("version match", RVP+"verification/verify_request_response_pair.rs")],
  note=NOTE+"Decides the version facts on every success exit."),
 dict(id="C09", title="Less specific expression paths need proof of absence of more specific ones",
  statement="A version 2 response is accepted only with an expression path that is the request's exact path, or with a wildcard path that covers the request while the certified tree proves absent the exact path and every more specific wildcard path. An exact path that is not the request's own is never accepted.",
  over=["inputs"], quant="every request path, expression path and witness tree",
  why="The tests list a few paths and trees; a candidate that is not looked up shows only for the tree that hides it.",
  files=[RVP+"validation/v2_validation.rs", "ic-http-certification/src/utils/wildcard_paths.rs"],
  mech=[("validate_expr_path", RVP+"validation/v2_validation.rs")],
  note=NOTE+"Decides that acceptance depends on those lookups; which candidates are enumerated is C10."),
 dict(id="C10", title="Exactly the wildcards between request and response are enumerated",
  statement="more_specific_wildcards_for lists, from the requested path upwards, the wildcard of every path and directory down from the responding wildcard, which it leaves out, and nothing else; a responding wildcard that does not cover the request counts as empty. is_wildcard_path_valid_for_request_path holds exactly if the wildcard, with or without its final separator, is a prefix of the request path.",
  over=["inputs"], quant="every requested path and responding wildcard path",
  why="Tests enumerate for one three-segment path; a wildcard left out for another depth or spelling lets a less specific response pass.",
  files=[HCP+"utils/wildcard_paths.rs"],
  mech=[("more_specific_wildcards_for", HCP+"utils/wildcard_paths.rs"), ("is_wildcard_path_valid_for_request_path", HCP+"utils/wildcard_paths.rs")],
  note=NOTE+"The equations of the loop (start, guard, item listed, next path) are recovered from the MIR and each is compared with its specification over every arrangement of the segments that matter in lists longer than any length or position the code names; the loop's equations determine the result by induction. A loop of another shape is reported rather than guessed at."),
 dict(id="C03", title="A certificate is accepted only with a valid signature",
  statement="Certificate::verify succeeds only if the certificate's BLS signature over the domain-separated root hash of its own tree verifies, under the given root key when it has no delegation and otherwise under the subnet key found in the delegation's tree, and only for correctly DER encoded BLS keys.",
  over=["inputs"], quant="every certificate, key, canister id and time",
  why="Tests hold a few genuine certificates; a path that accepts without the check needs a forged one.",
  files=[CVP+"certificate_verification.rs", CVP+"signature_verification/mod.rs"],
  mech=[("verify", CVP+"certificate_verification.rs"), ("verify_signature", CVP+"signature_verification/mod.rs")],
  note=NOTE+"Decides the facts every success exit carries; core_verify itself is taken as correct."),
 dict(id="C04", title="A certificate is accepted only within its time window",
  statement="Certificate::verify succeeds only if the certificate's time lies within the given offset of the current time, in both directions, for all 128-bit clock values and offsets: the limits are computed without wrapping and nothing else restricts the time.",
  over=["inputs"], quant="every time, clock value and offset",
  why="Tests use a few ordinary clocks; wrapping limits show only at extreme values.",
  files=[CVP+"certificate_verification.rs"], mech=[("verify_certificate_time", CVP+"certificate_verification.rs")],
  note=NOTE+"Decides the linear inequalities every success exit carries."),
 dict(id="C05", title="A delegation only speaks for its subnet's canisters",
  statement="A certificate with a delegation is accepted only if the delegation's certificate is signed by the root key, has no delegation of its own, and lists the given canister id in one of the canister ranges of the subnet that signed.",
  over=["inputs"], quant="every delegated certificate and canister id",
  why="The tests' few delegations are all well formed; range ends and nested delegations need forged ones.",
  files=[CVP+"certificate_verification.rs"], mech=[("verify_delegation", CVP+"certificate_verification.rs")],
  note=NOTE+"Decides the facts of every success exit with a delegation."),
 dict(id="C06", title="The signature cache never vouches for anything it did not verify",
  statement="A signature cache entry is written only after a successful verification, under a key that determines the public key, the signature and the whole signed message; a hit is accepted only for that same triple.",
  over=["inputs", "histories"], quant="every history of verifications",
  why="A wrong cache key shows only when two particular certificates follow each other.",
  files=[CVP+"signature_verification/mod.rs", CVP+"signature_verification/signature_cache.rs"],
  mech=[("verify_signature", CVP+"signature_verification/mod.rs"), ("SignatureCache", CVP+"signature_verification/signature_cache.rs")],
  note=NOTE+"Decides what written and read keys are made of and the facts behind each write."),
 dict(id="C11", title="A hash tree's digest is the specified one",
  statement="The digest of a hash tree is SHA-256 over the domain separator of the node's kind and exactly its parts (nothing for empty, both digests for a fork, label and digest for a labeled node, the contents for a leaf), a pruned node's digest is the one it holds, and the hash functions that trees are built with agree with it.",
  over=["inputs"], quant="every tree",
  why="Known-answer tests fix a few trees; a part left out for some shape needs another.",
  files=[ICP+"hash_tree/mod.rs"], mech=[("reconstruct", ICP+"hash_tree/mod.rs"), ("fork_hash/labeled_hash/leaf_hash", ICP+"hash_tree/mod.rs")],
  note=NOTE+"Decides the hash input of every kind of node."),
 dict(id="C12", title="A tree lookup claims presence or absence only when the tree proves it",
  statement="Looking up a path or subtree in a partially pruned tree reports a value only where the path leads, absence only where the neighbouring labels or an empty node prove it, and unknown wherever pruning could hide the label.",
  over=["inputs"], quant="every tree, pruned anywhere, and every path",
  why="Absence proofs depend on the combination of neighbours' results; the tests try a few of the many.",
  files=[ICP+"hash_tree/mod.rs"], mech=[("lookup_label", ICP+"hash_tree/mod.rs"), ("lookup_path", ICP+"hash_tree/mod.rs"), ("lookup_subtree", ICP+"hash_tree/mod.rs")],
  note=NOTE+"Decides the complete decision table over node kinds, comparison results and the children's outcomes; recursion by induction."),
 dict(id="C13", title="A hash tree read from CBOR is the tree that was encoded",
  statement="HashTree::from_cbor gives the node whose tag heads the array, with its parts from the following elements in order and of the right type, from the whole of the input; a pruned node holds exactly 32 bytes.",
  over=["inputs"], quant="every byte string",
  why="Tests decode a few trees; swapped children or an unchecked type need a particular one.",
  files=[CBP+"cbor_parse_hash_tree.rs"], mech=[("parsed_cbor_to_tree", CBP+"cbor_parse_hash_tree.rs")],
  note=NOTE+"Decides every accepting exit; recursion by induction, its depth is not bounded (see DESIGN.md)."),
 dict(id="C16", title="The representation-independent hash covers every key and value",
  statement="representation_independent_hash is SHA-256 over the sorted concatenations hash(key) hash(value) of all entries, none left out, merged or counted twice, with strings and bytes hashed as they are, numbers as unsigned LEB128 and arrays as the concatenation of their elements' hashes.",
  over=["inputs"], quant="every list of entries",
  why="Known answers cover a few maps; dropped duplicates or an order that depends on input need others.",
  files=[RIP+"representation_independent_hash.rs"], mech=[("representation_independent_hash", RIP+"representation_independent_hash.rs")],
  note=NOTE+"Decides the hash input; leb128 and sha2 are modelled."),
 dict(id="C17", title="The request hash covers exactly what the certification names",
  statement="request_hash is SHA-256 over the representation-independent hash of exactly the certified request headers (every occurrence, names lower-cased), the method and the certified query parameters, followed by the hash of the body.",
  over=["inputs"], quant="every request and request certification",
  why="A header that is skipped, or a parameter joined wrongly, shows for one shape of request only.",
  files=[HCP+"hash/request_hash.rs"], mech=[("request_hash", HCP+"hash/request_hash.rs")],
  note=NOTE+"Decides the hash input and the conditions on each part."),
 dict(id="C18", title="The response hash covers exactly the certified headers, the status and the body",
  statement="response_hash is SHA-256 over the representation-independent hash of exactly the headers that filter_response_headers keeps and the status code, followed by the hash of the body.",
  over=["inputs"], quant="every response and response certification",
  why="Tests compare a few hashes; a status or header left out under some certification needs another response.",
  files=[HCP+"hash/response_hash.rs"], mech=[("response_hash", HCP+"hash/response_hash.rs"), ("response_headers_hash", HCP+"hash/response_hash.rs")],
  note=NOTE+"Decides the hash input and the conditions on each part."),
 dict(id="C19", title="The header filter keeps the certified headers and never the certificate header",
  statement="filter_response_headers keeps exactly the headers the certification includes (or does not exclude) and always the certificate expression header, in order and with every occurrence, comparing names without case, and keeps the certificate header out, setting its value aside.",
  over=["inputs"], quant="every header list and response certification",
  why="Which headers leak or vanish depends on the combination of name, case and filter.",
  files=[HCP+"hash/response_hash.rs"], mech=[("filter_response_headers", HCP+"hash/response_hash.rs")],
  note=NOTE+"Decides the keep condition as a boolean function."),
 dict(id="C33", title="CBOR is decoded by its specification and nothing else is accepted",
  statement="For every initial byte the CBOR decoder gives the value the specification assigns: argument widths, sign and value of integers, the exact bytes of strings, the declared number of items of arrays and maps; reserved encodings are refused and a decoded input is consumed whole.",
  over=["inputs"], quant="every byte string, by all 256 initial bytes",
  why="The tests decode a few values; width, sign and boundary errors hide in the rest of the 256 initial bytes and the argument ranges.",
  files=[CBP+"cbor_parser.rs"], mech=[("parser", CBP+"cbor_parser.rs"), ("parse_cbor", CBP+"cbor_parser.rs")],
  note=NOTE+"Decides the accepted value as a function of the initial byte and following input; nom combinators are modelled (sa/nom_models.py)."),
 dict(id="C34", title="A certificate read from CBOR has the fields that were encoded",
  statement="Certificate::from_cbor takes the tree, the signature and, exactly when there is a delegation entry, the delegation's subnet id and certificate from the map entries of these names, each of the right type, from the whole of the input.",
  over=["inputs"], quant="every byte string",
  why="Tests decode genuine certificates; a wrong or missing entry that is tolerated needs a forged one.",
  files=[CBP+"cbor_parse_certificate.rs"], mech=[("parsed_cbor_to_certificate", CBP+"cbor_parse_certificate.rs")],
  note=NOTE+"Decides every accepting exit. A delegation entry that is not a map is read as none (see DESIGN.md)."),
 dict(id="C35", title="Serialized hash trees and certificates read back as themselves",
  statement="The serde form of a hash tree, certificate or delegation writes every part under the tag or name that the reader takes it from: node tags 0 to 4 with their parts in order and count, certificate fields by name, the delegation exactly when there is one.",
  over=["inputs"], quant="every tree and certificate",
  why="Round-trip tests cover a few trees; a swapped or dropped part for one node kind, or in the map form only, needs another.",
  files=[ICP+"hash_tree/mod.rs", ICP+"certificate.rs"], mech=[("serde_impl", ICP+"hash_tree/mod.rs"), ("serde_impl", ICP+"certificate.rs")],
  note=NOTE+"Decides what each serializer writes and each visitor reads; the serde data format itself is a library."),
 dict(id="C15", title="The certificate header is read as what it says",
  statement="CertificateHeader::from takes the certificate, tree, version and expression path each from the header field of that name, split at the commas and decoded (base64 and CBOR, a number for the version); a field of such a name that does not decode is an error, as is a missing certificate or tree, and the version is the lowest one when there is none.",
  over=["inputs"], quant="every header value",
  why="Tests read a few well-formed headers; which field lands where and what is forgiven shows only on malformed or repeated ones.",
  files=[RVP+"verification/certificate_header.rs", RVP+"verification/certificate_header_field.rs"],
  mech=[("CertificateHeader::from", RVP+"verification/certificate_header.rs"), ("CertificateHeaderField::from", RVP+"verification/certificate_header_field.rs")],
  note=NOTE+"Decides where every field of the result can come from; base64 decoding is a library."),
 dict(id="C22", title="The certification tree holds and witnesses what the verifier looks up",
  statement="A certification is placed at http_expr, the segments of its path with the exact or wildcard terminator, its expression hash, its request hash or an empty label, and its response hash; inserting and deleting address that path, and a witness shows it and, for a wildcard, the requested exact path and every more specific wildcard.",
  over=["inputs", "histories"], quant="every path, certification and request",
  why="A witness that leaves one path out verifies in tests whose trees do not hold it.",
  files=[HCP+"tree/certification.rs", HCP+"tree/certification_tree.rs", HCP+"tree/certification_tree_entry.rs", HCP+"tree/certification_tree_path.rs"],
  mech=[("witness", HCP+"tree/certification_tree.rs"), ("to_tree_path", HCP+"tree/certification_tree_path.rs")],
  note=NOTE+"Decides path layout, the tree operations used and the witnesses merged; the trees themselves are C12 and the enumeration of wildcards C10."),
 dict(id="C23", title="A certification is only made of a response that carries its expression",
  statement="HttpCertification::full and response_only succeed only if the response has exactly the certificate expression header of the given expression, and hold the hash of that expression and the request and response hashes made with it; skip holds the hash of the skip expression alone.",
  over=["inputs"], quant="every request, response and expression",
  why="A certification of a response without, or with another, expression header is one no client accepts; tests try two or three.",
  files=[HCP+"tree/certification.rs"], mech=[("validate_response", HCP+"tree/certification.rs")],
  note=NOTE+"Decides the facts and values of every success exit."),
 dict(id="C24", title="A CEL expression is read as what it says and written as what it is",
  statement="A parsed expression is mapped to skip, response-only or full certification exactly when it is default_certification(ValidationArgs{..}) with no_certification, or with certification:Certification{..} holding no_request_certification or request_certification, never both of a pair, with exactly the header and parameter lists it names; create_cel_expr writes that structure for every definition.",
  over=["inputs"], quant="every parsed expression and every definition",
  why="What is certified of a response hangs on this mapping; tests map a handful of expressions and the wrong property name or a missing conflict check needs another.",
  files=[RVP+"cel/ast_mapping.rs", HCP+"cel/create_cel_expr.rs"], mech=[("map_cel_ast", RVP+"cel/ast_mapping.rs"), ("create_cel_expr", HCP+"cel/create_cel_expr.rs")],
  note=NOTE+"Decides the facts and value of every accepting exit of the mapping, and the writer's text as a template over its lists. A header list object without headers counts as absent, as the code has it. Escaping of quotes is not covered (see DESIGN.md)."),
 dict(id="C25", title="What the asset router certifies is what it stores",
  statement="For every asset and configuration, certify_assets stores a response for the asset's URL, each alias, each fallback scope, each configured encoding there is an asset for, and each chunk of contents larger than a chunk, and for every redirect; each holds exactly the asset's bytes (or its chunk's), length, range, configured headers and type, encoding and status, and is inserted into the tree with a full certification of that very response for the request it answers.",
  over=["inputs"], quant="every set of assets and configurations",
  why="A response stored but certified under another path, request or content fails only for the assets, encodings or chunk numbers a test does not serve and verify.",
  files=["ic-asset-certification/src/asset_router.rs", "ic-asset-certification/src/asset_config.rs"],
  mech=[("certify_assets", "ic-asset-certification/src/asset_router.rs")],
  note=NOTE+"Decides every insertion into the router's maps and tree reachable from certify_assets: key, response, certification and the facts under which it is made. Certifying again under a key that is in use leaves the earlier tree entry; the documentation promises no replacement."),
 dict(id="C26", title="Deleting assets undoes certifying them",
  statement="delete_assets with the assets and configurations that were certified removes every stored response and every tree entry that certifying them made, and no tree entry that certifying them does not make; delete_all_assets leaves maps and tree empty.",
  over=["inputs", "histories"], quant="every set of assets and configurations",
  why="An entry left in the tree is still provable: a test sees it only for the kind of response it deletes and then looks for.",
  files=["ic-asset-certification/src/asset_router.rs"], mech=[("delete_assets", "ic-asset-certification/src/asset_router.rs"), ("delete_all_assets", "ic-asset-certification/src/asset_router.rs")],
  note=NOTE+"Compares the removals reachable from delete_assets with the insertions reachable from certify_assets, key by key and condition by condition."),
 dict(id="C27", title="The asset router serves the response the request asks for, with its own certificate",
  statement="serve_asset answers with the stored response for the requested path in the best accepted encoding (Brotli, Zstd, Gzip, Deflate, Identity) and for the range asked for, the first chunk of a large one without a range, or else the fallback with the longest scope; it is not found only when there is none. The certificate header is made of the data certificate, the served entry's own expression path and its witness for the requested path.",
  over=["inputs"], quant="every request and every content of the router",
  why="Which of several stored responses is served depends on combinations of encodings, ranges, sizes and fallback scopes of which tests try a few.",
  files=["ic-asset-certification/src/asset_router.rs", "ic-asset-certification/src/asset_map.rs"], mech=[("serve_asset", "ic-asset-certification/src/asset_router.rs"), ("get_asset_for_request", "ic-asset-certification/src/asset_router.rs")],
  note=NOTE+"Decides every lookup the served response can come from and the facts under which it is chosen. Quality values in accept-encoding are ignored by the code, which the documented order allows. Known findings: chunks are served for range headers they are not certified for."),
 dict(id="C20", title="The certified tree keeps its entries and its hashes through every operation",
  statement="After every insertion, deletion and modification an RbTree holds, in key order, exactly the entries that operation leaves (the entry with the key added, replaced, removed or changed, all others as they were), the hash kept in every node is that of its key, value and subtrees, and get gives the value stored under a key and nothing only when there is none.",
  over=["inputs", "histories"], quant="every sequence of operations on every tree",
  why="Balancing makes dozens of shapes; a hash left stale or an entry lost in one of them needs the sequence of operations that reaches it.",
  files=["ic-certification/src/rb_tree/mod.rs"], mech=[("RbTree::insert", "ic-certification/src/rb_tree/mod.rs"), ("RbTree::delete", "ic-certification/src/rb_tree/mod.rs"), ("RbTree::modify", "ic-certification/src/rb_tree/mod.rs")],
  note=NOTE+"Decides, on every path of each operation, the sequence of entries and the hashes of the nodes in the heap it leaves, by induction over the recursive calls. Balance (the colours) is not decided, nor is that the asserted presence of children holds."),
 dict(id="C21", title="A witness has the tree's hash and shows what was asked for",
  statement="Every hash tree an RbTree builds (witness, nested_witness, keys, key_range, value_range, keys_with_prefix, as_hash_tree) has the digest root_hash gives; it shows the entry of the key or every entry of the range, the key alone of the nearest neighbours where an end of the range is no key, so that absence is provable, and nothing else; and every value's root_hash is the digest of its hash tree.",
  over=["inputs"], quant="every tree, key and range",
  why="Which subtrees are hidden depends on where both bounds lie in every node's subtree; tests ask for a few ranges of small trees.",
  files=["ic-certification/src/rb_tree/mod.rs", "ic-certification/src/nested_rb_tree.rs"],
  mech=[("RbTree::witness", "ic-certification/src/rb_tree/mod.rs"), ("RbTree::value_range", "ic-certification/src/rb_tree/mod.rs"), ("RbTree::keys_with_prefix", "ic-certification/src/rb_tree/mod.rs")],
  note=NOTE+"Decides, by induction over subtrees, the digest and the visible parts of the tree built in every case of a node, its subtrees and how it compares with the bounds. Builds on C20 (order and kept hashes) and C11 (digests). Ranges whose ends are the wrong way round are not covered."), 
 dict(id="C14", title="No input makes verification or request handling panic",
  statement="Whatever the request, response, certificate, CBOR, CEL expression, hash tree, key or canister id, the verification entry points (verify_request_response_pair, Certificate::verify, from_cbor, CertificateHeader::from, the lookups and digests of hash trees, the request and response hashes) and AssetRouter::serve_asset's handling of the request return a result or an error: no index or slice out of bounds, cut inside a character, unwrap of an absent value, subtraction below zero, division by zero, allocation of a size somebody sends, call of a library function with an argument it panics on, or explicit panic is reached. Not meant: exhausted stack or memory, panics inside other crates on arguments they accept, and the building of trees and certifications from a canister's own data.",
  over=["inputs"], quant="every argument of the public functions of the verification crates, of the hash trees and of the hashing code, and every request served",
  why="A panic needs the one input that passes every earlier check and is then a byte too short; in a canister it traps the call, in a gateway it takes the process down.",
  files=[RVP+"verification/verify_request_response_pair.rs", RVP+"verification/body.rs", CVP+"certificate_verification.rs", CVP+"signature_verification/mod.rs", CBP+"cbor_parser.rs", HCP+"utils/wildcard_paths.rs", RIP+"representation_independent_hash.rs", "ic-asset-certification/src/asset_router.rs"],
  mech=[("extract_der", CVP+"certificate_verification.rs"), ("is_compressed_point", CVP+"signature_verification/mod.rs"), ("strip_path_affixes", HCP+"utils/wildcard_paths.rs"), ("parse_range_header_str", "ic-asset-certification/src/asset_router.rs"), ("body_from_decoder", RVP+"verification/body.rs")],
  note=NOTE+"Every construct that can panic in the functions an entry point reaches is an obligation: linear arithmetic over the lengths and conditions known on each path to it, from every public function on arbitrary arguments, must exclude it. Overflow of sums of lengths and counters is taken to be impossible; std::io::Read::read is trusted not to claim more than fits; other crates' functions are trusted on the arguments they document."),
 dict(id="C32", title="A compressed body is decoded whole or not at all",
  statement="Where a version 1 response declares the content encoding gzip or deflate, the bytes that are hashed are everything the compressed body decodes to, as clients decode it: read until the decoder says that nothing is left, for gzip every member of the stream; a body that does not decode is an error. With any other encoding, or none, the body is taken as it is.",
  over=["inputs"], quant="every body and declared encoding, whatever sizes the decoder hands out at a time",
  why="A short read in the middle, an error swallowed or a second member ignored shows only for bodies that tests do not have, and means that a client shows content nobody certified.",
  files=[RVP+"verification/body.rs"], mech=[("decode_body", RVP+"verification/body.rs"), ("body_from_decoder", RVP+"verification/body.rs")],
  note=NOTE+"Decides which stream is read, that the loop keeps exactly what each read reports and ends on nothing read, and which exits are errors. The decoders themselves (flate2) are trusted. That the decoded bytes are what is compared with the certified hash is C02."),
 dict(id="C36", title="A nested tree holds what was put at each path",
  statement="After insert(path, value) a NestedTree gives that value at that path and everything at paths that do not lead through it or under it as before; after delete(path) nothing is at or under the path and no level on the way is left empty; get, contains_leaf and contains_path tell exactly what is there; the witness of a path shows, level by level, what the level's witness shows, and the hash and full tree are those of the value or the level.",
  over=["inputs", "histories"], quant="every path, value and tree, after every sequence of operations",
  why="Tests use a handful of paths of one or two keys; a level left behind or a longer path cut short needs the right shape of tree.",
  files=[ICP+"nested_rb_tree.rs"], mech=[("NestedTree::insert", ICP+"nested_rb_tree.rs"), ("NestedTree::delete", ICP+"nested_rb_tree.rs"), ("NestedTree::witness", ICP+"nested_rb_tree.rs")],
  note=NOTE+"Decided by induction on the path: each operation is interpreted once for every kind of node, path and child, with what it does to the child taken from the rule. Builds on C20 and C21 (a level is a map with witnesses)."),
 dict(id="C37", title="Merging witnesses shows what either shows and nothing else",
  statement="merge_hash_trees of two views of one tree is a view of the same tree (the same digest) that shows everything either of them shows; views that disagree on a label, a leaf, a hidden hash or the kind of a node are not merged (except that an empty tree gives way to the other).",
  over=["inputs"], quant="every pair of hash trees",
  why="A side taken unmerged or a comparison left out shows only for two witnesses that overlap in just that way.",
  files=[ICP+"nested_rb_tree.rs"], mech=[("merge_hash_trees", ICP+"nested_rb_tree.rs")],
  note=NOTE+"Decided by induction as a table over the kinds of both nodes and whether their own parts are equal; digests are C11."),
 dict(id="C29", title="Requests and responses are what was put into them",
  statement="Every part of a request or response is what was last given for it, in whatever order the parts were given, and its default (GET, /, 200, no headers, empty body, nothing else) where nothing was; converting between requests, update requests, responses, update responses and builders keeps every part both sides have; adding a header appends it and changes nothing else; the path of a request is the percent-decoded path of its url and the query that of its url as it stands, and only urls that do not parse or decode are errors; responses are equal exactly if status, body, upgrade and (in any order) headers are.",
  over=["inputs"], quant="every request, response, url, order of construction and conversion",
  why="Everything that is certified or verified goes through these types; a part lost or changed for some combination means that what is certified is not what is sent.",
  files=[HCP+"http/http_request.rs", HCP+"http/http_response.rs"], mech=[("HttpRequest::get_path", HCP+"http/http_request.rs"), ("HttpRequestBuilder::build", HCP+"http/http_request.rs"), ("HttpResponseBuilder::build", HCP+"http/http_response.rs"), ("From<HttpResponse> for HttpResponseBuilder", HCP+"http/http_response.rs")],
  note=NOTE+"Public functions are composed on symbolic arguments, as callers compose them, and compared with what went in. Parsing of urls, percent-decoding and candid's encoding are the libraries'."),
 dict(id="C38", title="The certificate header says what it was given",
  statement="add_v2_certificate_header appends exactly one header, the certificate header, and changes nothing else of the response: it carries the certificate, the witness and the expression path it was given (the latter two as self-described CBOR), each in standard base64 between colons under the name the verifier reads it by, and version 2.",
  over=["inputs"], quant="every certificate, response, witness and expression path",
  why="The verifier reads the header field by field; a field that is encoded in another alphabet or form fails only for contents that tests do not have.",
  files=[HCP+"utils/response_header.rs"], mech=[("add_v2_certificate_header", HCP+"utils/response_header.rs")],
  note=NOTE+"The reverse of C15; how a tree is serialized is C35."),
 dict(id="C39", title="Skipped certification is certified by the canister",
  statement="The headers that add_skip_certification_header adds are a version 2 certificate header whose tree shows the hash of the skip expression under http_expr and the wildcard, ending in an empty leaf, with the path to it, and the expression header with the text of that same expression; the certified data offered for them is the digest of exactly that tree. Nothing else of the response changes.",
  over=["inputs"], quant="every response and certificate",
  why="The three places must agree; tests compare them with fixed strings for one response, and the verifier for one canister.",
  files=[HCP+"utils/skip_certification.rs"], mech=[("add_skip_certification_header", HCP+"utils/skip_certification.rs"), ("skip_certification_certified_data", HCP+"utils/skip_certification.rs")],
  note=NOTE+"What the verifier makes of such headers is C01 and C07; the text of the expression C24."),
 dict(id="C40", title="A certification expression built is the one asked for",
  statement="An expression from the builders has, for each of its parts, the list last given for it, whatever was given before or after for the others, and certifies no headers and no parameters where none was given; certified headers and excluded headers are not confused, and an empty list of exclusions stays one; an expression displays as its text.",
  over=["inputs"], quant="every list and order of construction",
  why="What a canister certifies is what the expression says; a part dropped or swapped for certain lists (an empty one, say) certifies less than the author asked for.",
  files=[HCP+"cel/cel_builder.rs", HCP+"cel/cel_types.rs"], mech=[("DefaultFullCelExpressionBuilder::build", HCP+"cel/cel_builder.rs"), ("DefaultResponseCertification", HCP+"cel/cel_types.rs")],
  note=NOTE+"Public functions are composed on symbolic arguments. The text of an expression is C24, what it certifies C17 to C19."),
 dict(id="C41", title="Listing a tree shows every entry, once and in order",
  statement="RbTree::iter and for_each yield the key and value of every entry once, in key order, collecting a tree inserts every pair in turn into an empty one, and is_empty holds exactly of a tree without entries; HashTree::list_paths lists for every leaf, and nothing else, the labels that lead to it, from left to right.",
  over=["inputs", "histories"], quant="every tree, whatever its shape",
  why="A traversal that loses its way does so for one shape of tree; tests list a few.",
  files=[ICP+"rb_tree/mod.rs", ICP+"hash_tree/mod.rs"],
  mech=[("Iter::next", ICP+"rb_tree/mod.rs"), ("for_each", ICP+"rb_tree/mod.rs"), ("from_iter", ICP+"rb_tree/mod.rs"), ("list_paths", ICP+"hash_tree/mod.rs")],
  note=NOTE+"The iterator is decided turn by turn: the state after a turn, and whether and what it then yields, as recovered from the MIR, are compared with those of an in-order walk in every state over all trees of up to four nodes and over spines deeper than any number in the code. That keys are in order in the tree is C20."),
 dict(id="C42", title="A router shows the assets it holds and the tree it certifies them in",
  statement="AssetMap::get gives the response stored under exactly the path, encoding and starting range asked for, len and is_empty count all stored responses and iter lists each with its key; get_assets and get_fallback_assets are the maps that requests are served from, root_hash is the root hash of the router's tree, and a new router holds no assets and the given tree as it is.",
  over=["inputs", "histories"], quant="every router, path, encoding and range",
  why="Tests look up a few assets; a key that is changed on the way shows only for the asset stored under it.",
  files=["ic-asset-certification/src/asset_map.rs", "ic-asset-certification/src/asset_router.rs"],
  mech=[("AssetMap::get", "ic-asset-certification/src/asset_map.rs"), ("AssetMapIterator::next", "ic-asset-certification/src/asset_map.rs"), ("root_hash", "ic-asset-certification/src/asset_router.rs")],
  note=NOTE+"HashMap is modelled; what is stored under which key is C25."),
 dict(id="C43", title="Assets and configurations are taken as they are given",
  statement="An asset keeps its path and content, and its URL is its path behind exactly one slash more unless it starts with one; preparing a configuration keeps its kind and every field, compiles a pattern as it is written and fails only if that cannot be done; certify_assets and delete_assets fail, before they change anything, if any configuration cannot be prepared; the default file extension of every encoding is its own.",
  over=["inputs"], quant="every asset path, configuration and encoding",
  why="A path, field, pattern or extension changed on the way shows only for the asset whose name or configuration has that shape, and a configuration passed over only shows in the headers that are missing.",
  files=["ic-asset-certification/src/asset.rs", "ic-asset-certification/src/asset_config.rs", "ic-asset-certification/src/asset_router.rs"],
  mech=[("Asset::new", "ic-asset-certification/src/asset.rs"), ("NormalizedAssetConfig::try_from", "ic-asset-certification/src/asset_config.rs"), ("default_config", "ic-asset-certification/src/asset_config.rs")],
  note=NOTE+"What a compiled pattern matches is globset's; which configuration applies to which asset is C25. The URL is compared over eleven shapes of paths, which show everything the recovered expression looks at."),
 dict(id="C44", title="A response is refused only for a check it fails",
  statement="verify_request_response_pair refuses a response only because one of the conditions of acceptance does not hold of it: the certificate header is missing or unreadable; its version is below the caller's minimum or does not exist; the certificate does not verify, or does not certify the tree; the request has no path or cannot be hashed; in version 1, the body cannot be decoded, or the tree holds neither under the path nor, where the path is not there, under the index the hash of the body, decoded or as it is; in version 2, the expression or its path is missing, unreadable, wrongly begun or ended, not the request's, not in the tree with that expression, or not proved to be the most specific, or the tree lacks the pair of hashes. No other quality of request, response, certificate or time makes it refuse one.",
  over=["inputs"], quant="every request, response, certificate, time and key",
  why="A refusal for a further reason shows only for exchanges of which that reason holds, and a gateway that refuses a rightly certified response takes the canister off the air for them.",
  files=["ic-response-verification/src/verification/verify_request_response_pair.rs", "ic-response-verification/src/validation/v1_validation.rs", "ic-response-verification/src/validation/v2_validation.rs"],
  mech=[("verify_request_response_pair", "ic-response-verification/src/verification/verify_request_response_pair.rs"), ("validate_expr_path", "ic-response-verification/src/validation/v2_validation.rs"), ("validate_body", "ic-response-verification/src/validation/v1_validation.rs")],
  note=NOTE+"Which error is given is not claimed. When the parts called refuse (header parsing, decoding, certificate verification, lookups, wildcard candidates) is C03 to C10, C15, C22 to C24, C32 and C33."),
 dict(id="C45", title="A certificate is refused only for a check it fails",
  statement="Certificate::verify refuses a certificate only because one of the conditions of acceptance does not hold of it: it has no time, or one that cannot be read or lies outside the window around the current time (whose ends belong to it); where there is a delegation, the delegation's certificate cannot be read, or has a delegation of its own, or its tree has no readable canister ranges or no public key for the subnet, or the canister id is no principal, or it lies in none of the ranges; or, for the certificate or the delegation's one, the key is not a DER encoded BLS key, the key or the signature has not the form of a compressed point, or the signature is not one of that key over that tree. No other quality of certificate, delegation, time, key or canister id, and no verification before it, makes it refuse one.",
  over=["inputs","histories"], quant="every certificate, canister id, key, time and offset, after every history of verifications",
  why="A refusal for a further reason shows only for the certificates of which that reason holds (unusual ranges, boundary times, a signature seen before), and it makes clients reject what the subnet rightly certified.",
  files=["ic-certificate-verification/src/certificate_verification.rs", "ic-certificate-verification/src/signature_verification/mod.rs"],
  mech=[("Certificate::verify", "ic-certificate-verification/src/certificate_verification.rs"), ("verify_signature", "ic-certificate-verification/src/signature_verification/mod.rs")],
  note=NOTE+"Which error is given is not claimed. When the parts called refuse (lookups, CBOR, LEB128, BLS) is C12, C33, C34 or a library's matter."),
 dict(id="C46", title="Requests and responses cross the canister interface unchanged",
  statement="In Candid, HttpRequest, HttpUpdateRequest, HttpResponse and HttpUpdateResponse are the records of the HTTP gateway interface: method and url are text, headers a vector of pairs of texts, body a blob, certificate_version an optional nat16, status_code a nat16, upgrade an optional bool, and the update forms lack the optional field. What is written is the value of each field under its own name, the method as its text and the status as its number. What is read is, for each field, the value of the entry of that name, in whatever order the entries come; no value is changed, defaulted or taken from another entry. A text that is no method and a number that is no status are refused, and none that is one.",
  over=["inputs"], quant="every request and response, and every encoded record",
  why="Both the gateway and the canister see only the encoded form; a method, status or version that is read as another makes them certify or verify another exchange than the one they have, and only for values tests do not use.",
  files=[HCP+"http/http_request.rs", HCP+"http/http_response.rs"], mech=[("MethodWrapper", HCP+"http/http_request.rs"), ("StatusCodeWrapper", HCP+"http/http_response.rs"), ("HttpRequest", HCP+"http/http_request.rs"), ("HttpResponse", HCP+"http/http_response.rs")],
  note=NOTE+"How candid and serde encode texts, numbers and records, and which texts and numbers the http crate takes as methods and statuses, is theirs."),
]
NA = []
