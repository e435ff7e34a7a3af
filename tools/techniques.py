"""Technique and level note of every check (used for MANIFEST.json)."""
DF = 'static analysis: interprocedural path-sensitive value-flow analysis of the MIR'
BASE = ('Decides every path of the analysed roots for all argument values, over-approximating loops by inductive invariants; '
        'trusts the exporter, the models of std and of the dependencies, and the hash and curve primitives as opaque functions.')
TECH = {k: (DF, BASE) for k in ['C%02d' % i for i in range(1, 29)]}
DFB = DF + ' with byte-wise symbolic objects'
TECH['C11'] = (DFB, BASE)
TECH['C18'] = (DFB, 'Every byte of every encoding is a term over the field bytes, for all field values at once; decoders are run on a byte string of unknown '
               'content and length. ' + BASE)
TECH['C12'] = ('static analysis: interval and linear-inequality analysis of every reachable key-derivation call', BASE)
TECH['C13'] = ('static analysis: panic-freedom by abstract interpretation (facts, intervals, linear inequalities) on the release and the debug MIR',
               'Every reachable panic point of every public fallible function, all argument values; arithmetic inside the hash and curve primitives is opaque here. ' + BASE)
TECH['C16'] = ('static analysis: value-flow analysis of branches and indices plus interprocedural taint analysis of the MIR',
               'Two over-approximations: branch and index terms of the operations on keys, and taint of the hash and curve code they call; encoding of public points, '
               'base64 and scrypt are outside.')
TECH['C17'] = ('static analysis: information-flow analysis over the value-flow terms of all outputs', BASE)
TECH['C20'] = (DF + ', and a MIR lint for unread results', BASE)
TECH['C24'] = ('static analysis: bounds obligations of every unchecked memory operation, by abstract interpretation with linear inequalities',
               'Every unchecked operation of the crate is enumerated from the MIR and is one obligation, for arguments of any value and length.')
TECH['C27'] = ('static analysis: effect analysis over the call graph of the type-checked program',
               'Over-approximates the call graph (all instances, drops, closures, formatting); effects of bodyless functions are classified by path.')
TECH['C28'] = ('static analysis: trait-solver queries, type-graph walk and value-flow analysis of shared arguments',
               'The compiler itself answers Send and Sync; interior mutability by walking every field type; unchanged arguments by value-flow analysis on every path.')
TECH['C29'] = ('static analysis: abstract interpretation of the MIR over a domain of word expressions with normal forms, compared with the definition',
               'All contents at once; lengths of pieces are a finite set of boundary cases, carried to any number of earlier blocks by an inductive step on a symbolic state.')
TECH['C31'] = ('static analysis: abstract interpretation of the MIR over layered domains (integer polynomials with intervals and floors, field polynomials, combinations of points)',
               'All inputs at once, by normal forms and intervals; the digit recoding is decided by an inductive step on its loop, the digits of the double multiplication are case-split.')
TECH['C30'] = ('static analysis: abstract interpretation of the chain of public functions over symbolic values, with the group laws as rewriting rules',
               'Keys, data, comments and random bytes are symbols; values of scalars and point encodings are split into classes that partition them.')
TECH['C32'] = ('static analysis: abstract interpretation of parsing and verification over symbolic genuine signatures, with the group laws as rewriting rules',
               'Key, data, comments and nonces are symbols; values of scalars and point encodings are split into classes that partition them.')
TECH['C33'] = ('static analysis: abstract interpretation of the functions that read keys over symbolic genuine key files',
               'Every byte of key, salt, comment and password is a symbol; only the limits are a finite list.')
TECH['C34'] = ('static analysis: abstract interpretation of the accessors and clone functions on symbolic objects',
               'Every field of the object is a symbol.')
TECH['C35'] = ('static analysis: abstract interpretation of signing and of the key exports, with clock reads and formatted text as terms',
               'Every field, comment and clock value is a symbol.')
TECH['C36'] = ('static analysis: abstract interpretation of every public function with failures as terms, and of the error type itself',
               'Every failing step is a branch; error values are terms, so dropping or replacing one is visible in the result.')
# what the rule's own description leaves open, for DESIGN.md
DESIGN = {
    'C01': 'Bounds: none on lengths or contents. `ed25519::verify` itself is analysed (its body is inlined); the primitives it is built from are opaque, see C21 for their strictness.',
    'C05': 'Lines are modelled by std\'s `lines` (a final CR belongs to the line end).',
    'C06': 'A write event inside a helper is attributed to the function it happens in; the state at the event is the union over all call paths.',
    'C07': 'Interrupted reads: `read` may return any error at any call; adapters of std (`read_to_end`, `io::copy`, `BufReader`) are modelled by their contracts.',
    'C10': 'The decision is on terms: "encrypted" means that no stored byte is free of its own keystream byte, whatever the password.',
    'C12': 'The intervals come from the guards in the code, through division, shifts and the search loop for the cost exponent (case split over its 63 values).',
    'C13': 'Each analysed function is one obligation per configuration (all its panic points, in every calling context). The length invariant needed by verification (a global signature has 64 bytes, the signed bytes at least 64) is proved where objects are built.',
    'C15': 'What the rule needs of the hash is only that equal terms are equal inputs.',
    'C16': 'Any branch on secret-dependent data is reported, also a harmless one; comparing the complete accumulated difference is the one permitted branch.',
    'C17': 'One-way functions (hashes, point encoding of multiples) end the flow; the boxed secret key, passwords, seed, nonce and keystream are sources too.',
    'C21': 'The scalar classes partition all 2^256 values exactly, so no value is left out; the class analysis runs the comparison loop of the source on abstract bytes.',
    'C23': 'The loop is solved by its recurrence (accumulated "or" of differences over all positions), so the statement is for all lengths.',
    'C24': 'Extents are linear terms over slice lengths, so "fits" is a linear entailment from the checks that dominate the access.',
    'C30': 'The group laws are rewriting rules, justified by C31 (the code computes the curve operations) and by facts about the group: the order is prime, so a '
           'multiple of 8 in [2^254, 2^255) is not a multiple of it and the public key has prime order. The classes of scalars (17) and of encodings (32) are '
           'run together on a diagonal in the quick tier and all pairs in the thorough one. The data source gives the same bytes when read again. Signing with a '
           'secret key that is still encrypted is outside the statement: the library does not refuse it, and the signature verifies with no key.',
    'C32': 'Group laws and classes as for C30. The signer is the definition of Ed25519 in the rule (h = SHA-512 of R, key and message; S = h*a + r), independent of '
           'the signing code of the crate, so a signer and a verifier that are wrong in the same way do not satisfy it. Trusted comments are UTF-8.',
    'C33': 'Limits: seven pairs (those of minisign, rsign and libsodium\'s presets, and others within the bounds of C12). scrypt is opaque and reports no failure for valid parameters; '
           'that the parameters are the prescribed ones is part of the obligation (another scrypt call gives another keystream and the checksum does not match).',
    'C31': 'The recoding loop (`slide`) is decided for one trip at a set of positions (quick: 10, thorough: 46 of 256; the body is the same at all of them) and, if it is rewritten '
           'so that it is no longer a loop counting positions upwards from the bits of the scalar, not at all (the evidence then says so). The digits are case-split: every digit of either scalar at every one '
           'of the 256 positions (quick: 17 assignments; thorough: all 289 pairs) and the position of the first digit (quick: 10 of 256, thorough: all); the points are symbols. '
           'Field constants, the base point and the table of its multiples are checked against their definitions. Inversion is by the exponent p-2, so 0 maps to 0.',
    'C29': 'Bounded in one respect: the length of one piece given to `update` (and of the tail in the buffer) ranges over a set of boundary cases, up to a few '
           'blocks, not over all lengths; the number of blocks absorbed before is a symbol. A defect that needs a single piece of one particular other length '
           'is missed unless the code compares with that length. Digest lengths 32 and 64, no key (the ones the crate uses). '
           'The message length is below 2^61 bytes.',
    'C27': 'Allowed sets: verification and parsing none (load-from-file: the named file), signing random and clock, generation random and terminal.',
}
NA = {
}
