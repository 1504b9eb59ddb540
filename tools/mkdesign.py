import json, os
head = '''# Contract-based deductive verification of python-proofchains

## What decides a property

`properties.jsonl` lists 33 properties; all are claimed at level "proof", none is "not applicable". For each, `contracts/cNN.py`
holds **contracts**: Python texts that state preconditions (`c.assume`, the ranges of drawn values), call the real functions of
`/repo`, and state postconditions (`c.eq`, `c.check`, `c.raises`, `c.each` ...). The same text is used twice:

1. **Proof** (`sym_task` in `engine/run.py`). The functions under test are executed *symbolically by a verification-condition
   generator written for this task* (`engine/`): there is no deductive verifier for Python among the installed tools
   (CrossHair explores paths within bounds, the others verify C, Rust, Java, or their own languages). Every input is a symbol,
   every `if` on symbols a case split, every claim an obligation `path condition => claim` discharged by z3.
   * **Unbounded loops are cut by an invariant** (`@loop` classes): proved on entry, proved preserved by an arbitrary
     iteration, assumed after the loop; a variant gives termination where stated. Everything the loop may change is havocked,
     and a frame check rejects a change of anything else.
   * **Calls to functions that have their own contract are replaced by it** (`models=`), so a caller is checked against the
     callee's contract and not its body; `contracts/callees.json` says which contract of which property discharges each of
     them, and the evidence of every check lists them.
   * **Recursive structures are proved by induction**: the parts of a node are stand-in objects of which only the contract being
     proved is known (`mmrtree.Range`, `mbt.Tree`, opaque proofs, gumap children); the node built over them must meet it.
   There is no bound on lengths, values, depths or iterations in a contract counted as proved.
2. **Execution** (`conc_task`). The same contract runs on the unmodified code, in plain CPython, over seeded edge-biased inputs
   (constants mined from the current source included). For a proved contract this cross-checks the engine and is the replay
   oracle. A contract marked `sym=False` / `bounded=` is a **bounded stand-in** or a cross-check of whole histories, listed in
   the evidence as bounded and never counted as proved. Every property also has proved contracts; the stand-ins only add inputs.

A refuted obligation gives a counter-model; its inputs are replayed by (2) on the real code. Verdicts:

| outcome | exit |
|---|---|
| a failing input on the real code (from the solver or from execution); also a crash of the interpreter or 45 s of CPU on one sampled input | 1, `VIOLATION ... replay=<file>` |
| a postcondition, loop invariant or lemma is refuted, every other obligation of that contract is decided, nothing in it is unsupported, no replay fails | 1, `VIOLATION ... no-failing-input-found`; the file names the obligation and the solver's model |
| unknown, time limit, unsupported construct, a loop that should have been cut is gone, an unexpected exception inside the engine | 0, printed `UNDECIDED`, not counted as proved |
| everything discharged / all executions satisfied | 0 |

When a contract comes out undecided or refuted without a failing replay, a second stage ("search") looks harder for a failing
input: forty times the samples, and the same contract with loops unrolled over short inputs. The third row is deliberate: a
refactoring the engine cannot follow must not raise an alarm; the execution layer has still run and still judges behaviour.

## The verified text is the code that runs

`engine/world.py` reads the modules of `/repo` on every run (`VF_REPO` selects another tree when planting bugs), instruments
their AST in memory and executes them in a private module table. Nothing is hand-copied and nothing is cached between runs.
The instrumentation

* routes truth tests, comparisons, `in`, `is`, boolean operators, arithmetic, subscripts, slices, calls of builtins,
  comprehensions, formatting, generators and loops through the engine so that they accept symbolic values; on concrete values
  every operation is CPython's own;
* drops: type annotations and decorator-free docstrings (inert); text produced by `%` formatting or `repr` of symbolic values is
  opaque (contents of error messages are not verified), `print`;
* replaces library modules by stand-ins with contracts: `hashlib`, `hmac` (uninterpreted functions of fixed output length;
  digests of different inputs are taken to differ - no collisions - and this assumption is recorded in the evidence of each
  check that uses it), `struct`, `io.BytesIO`, `binascii`, `socket.inet_*`, `ctypes`/libcrypto (`engine/openssl.py`),
  `decimal`, `time.time`.

Integers are mathematical, as in Python. Byte strings are ropes of symbolic pieces, lists and tuples ropes of elements; both may
have symbolic, unbounded length. Objects are real Python objects of the instrumented classes, so inheritance, properties,
`__slots__`, `__getattr__`, class attributes, identity and aliasing are those of CPython.

**Trusted:** the engine (its semantics of the instrumented operations and stand-ins), z3, the specifications in `contracts/`,
CPython, that a loop's `havoc` covers every state satisfying its invariant, and that a stand-in behaves as its contract says
(and no more). Per property, `contracts/assumptions.json` lists the hand lemmas and assumed contracts; the evidence repeats them
with those the engine recorded while proving. Checks of the trusted part: every proved contract is also executed concretely;
`tools/conformance.py` runs the repository's own tests through the instrumented world (127 pass; the three that use libcrypto
cannot); the planted bugs, a mutation study and a loop-mutation study (below).

## Per property

"Proved" lists what the discharged contracts say for all inputs; "sampled" the bounded stand-ins and cross-checks.

'''
P = {
'C01': '''`write_varuint`/`read_varuint` against the LEB128 specification (the encoding is unfolded on demand; invariants: what is written so far followed by the encoding of the rest is the encoding of the argument; what is read so far plus the value of the rest), `read/write_bytes`, `read/write_bool`: encoding, decoding with an arbitrary tail, every proper prefix, other booleans.''',
'C02': '''Every serializer class (all UInt widths, FixedBytes/Digest, VarBytes, SerBool): exact domain, error classes by type or range, round trip, over-range and over-length encodings. LEB lengths enter by the contract of C01.''',
'C03': '''A bit array is its length and a symbolic, unbounded buffer with arbitrary padding (bit arrays of length 8q+r, one part per r and per alignment of the operands; `contracts/bitrope.py`). Index, iteration, construction from any iterable of bits, equality, order (strict, total, consistent with equality: lemmas over the first difference), prefix test, common prefix (longest), sum, inverse, slices of every step sign; results compared bit by bit, operands unchanged. Sampled: random arrays, as tuples.''',
'C04': '''`BitsSerializer` over the same arrays: encoding is length + zero-padded bytes whatever the padding; decoding; every prefix; non-zero padding; foreign values refused when a structure holding them is built.''',
'C05': '''For twelve proof classes covering every kind of attribute, nesting, variants, unions and recursion, with arbitrary values and opaque nested proofs: hash and data hash equal the specified preimage for the proof, pruned copies, and pruned copies of those in any state of access and caching; any differing attribute, class or variant gives another preimage; nothing can be rebound or deleted. The loops over the attribute list are unrolled for these classes. A transaction proof is exempt (C12). A class with *any number of attributes* (`contracts/anyclass.py`: the attribute list symbolic, its serializers known by contract, the loops over it cut): hash, data hash, copies.''',
'C06': '''Same classes: after any first-level set of accesses (second level by opaque nested proofs, deeper by induction) the serialized pruned copy decodes to the same hash with exactly the accessed parts, the others raising `PrunedError` naming the attribute; originals unchanged; truncated and malformed encodings raise; unions of 300 classes. A class with any number of attributes: construction, encoding and decoding of the whole proof and of a pruned copy in any state of access, one more access in any state (so, by induction, any history), encodings cut short.''',
'C07': '''By induction over the two halves (stand-ins meeting the list contract): length, index of any sign, iteration, reversed, contiguous slices, append, merge, extend (loop invariant), earlier versions unchanged. `_merge_trees` has the precondition that the new right tree is perfect of size q and q divides the length; a lemma on powers of two is decided on 72-bit vectors (lengths are below 2^64 by the class). Sampled: lists of up to 130 values, pruned and decoded ranges.''',
'C08': '''The shape predicate (perfect halves, split at the lowest set bit) is kept by append, merge and extend; `is_perfect_tree`; hash of each kind of node; different lists give different preimages. Bounded: every length up to 1100.''',
'C09': '''Keys are opaque bit arrays of one length filed by their common-prefix bits; lookup, put, remove (loops over the path down, with a path/rebuild invariant), joining, descending, contents, `items`, construction from a mapping, node hash, equal maps have equal trees, existing trees unchanged. Sampled histories, order independence.''',
'C10': '''Subset test of two nodes in each relation of their prefixes (same, above, below, beside) with children answering by contract; leaves; any two trees; other classes.''',
'C11': '''Simulated seals; a Bitcoin witness verifies exactly when the quoted input spends the outpoint and input and output quote the same transaction; it accepts a hash exactly for the three standard scripts, compared byte for byte over an arbitrary script; pruned-away evidence raises.''',
'C12': '''Hash of a transaction proof, equality after pruning and decoding, exposed outpoint, input, output at any index, encodings cut short and with bytes left over. Transactions are arbitrary, their bytes opaque and invertible (C16).''',
'C13': '''Template for any list of seals (unbounded) and each commitment form; witnesses of every seal in the template or a completed transaction verify, and accept no other hash.''',
'C14': '''Any prefix, key, value, child seals: what is closed over, where, and that verification succeeds exactly for that; other contents, child order, node kind refused.''',
'C15': '''Compact sizes over 0..2^64-1, byte strings, `ser_read` at and beyond MAX_SIZE, each vector serializer for any number of elements (element contract: an arbitrary invertible encoding; loops cut in both directions), truncation, extra data.''',
'C16': '''Layout, round trip, re-serialization, hashes and truncation of each structure, mutable and immutable, vectors by contract.''',
'C17': '''Assignment and deletion refused; every combination of mutable and immutable parts; identity of parts checked on the real object graph; any number of inputs and outputs for types and freshness. Bounded: "changes reach no copy" for at most one input and one output.''',
'C18': '''`raw_iter` from an arbitrary position of an arbitrary script (loop cut, element by element), cooked iteration, each kind of item in its shortest form, reading back, small-number opcodes, a script built of any number of items (symbolic list; each item by its form).''',
'C19': '''Predicates and both signature-operation counts over an arbitrary sequence of operations (raw iteration by the contract of C18); scripts ending in a truncated push included.''',
'C20': '''`bn2vch`/`vch2bn`/`bn2mpi`/`mpi2bn` for every integer: shortest form, sign bit, inverse, malformed message lengths.''',
'C21': '''Per group of opcodes: one operation of `_EvalScript` executed from an arbitrary state (any stacks, condition stack, op count, flags, script position) satisfying the invariant, against `contracts/scriptref.py`; the truth of an item; condition stack; CHECKSIG; CHECKMULTISIG for any numbers of keys and signatures (three loops cut). Numbers (C20), FindAndDelete and signature hashes (C23) by contract; signature verification an arbitrary predicate. Sampled: whole scripts, limits, real signatures.''',
'C22': '''`VerifyScript` with evaluation as an arbitrary fixed function of (script, stack, flags): order, stack handed on (copied before P2SH), push-only, final truth; `VerifySignature`: index, previous output, error class.''',
'C23': '''`FindAndDelete` over an arbitrary script (loop cut: what is kept equals the specification's), `RawSignatureHash` for any transaction, index and 32-bit hash type: loops over inputs and outputs cut, the preimage equal to the specified one, arguments unchanged.''',
'C24': '''`CheckTransaction` with loops over outputs and inputs cut (running totals, duplicates as set membership), block checks with loops over transactions cut, header, legacy sigops; error class exactly when a rule is broken. `CTxOut.is_valid` and `CTxIn.is_final` with the validity of scripts by its contract (C19). Sampled around the limits.''',
'C25': '''Every 32-bit compact value (one part per exponent), hash as an integer, acceptance for each network.''',
'C26': '''Tree of any number of transactions: nested loops cut with the level recursion as specification; root; none for an empty list; the tree a block keeps.''',
'C27': '''Parametrised by a number N, a number of leading zeros/ones: the encoder's division loop produces the base-58 digits (ghosts q_k, digits d_k; induction lemmas), the decoder's Horner loop their value; bad characters anywhere; version, payload and checksum. That these parametrise all byte strings and all texts is a hand lemma.''',
'C28': '''Any 20-byte hash and network, both kinds: script of the address, address of the script, any other script (27 forms of near misses and arbitrary bytes), any text by the Base58Check contract, public keys of both lengths when allowed. One known finding (below).''',
'C29': '''Murmur3 of data of any length (loop over blocks cut; words equal as 32-bit vectors), insertion sets the specified bits and no others and clears none, membership, serialization. Filters without bits by their own contract. Sampled histories.''',
'C30': '''Frame of every message; round trip of all fifteen messages and of the structures within, any counts; wrong magic, checksum, length, cut at any point. Version messages are in scope from protocol 209 on (10300 excluded), inventory hashes are 32 bytes, addresses canonical.''',
'C31': '''What the Python code passes to libcrypto and does with its answers, for any secret, hash, signature and key: whole pointers, buffers within bounds, results, sizes, WIF; libcrypto itself by an assumed contract. ECDSA against an independent implementation (`contracts/ecref.py`), sampled; shared secrets and exported keys, sampled (products with a leading zero byte included); low-S is not promised by the repository, so not claimed.''',
'C32': '''Amounts as exact decimals in every way of writing them, the float route by the nearest-float lemma, hash byte order of each remote call (`_call` replaced by a stand-in recording the request and giving an arbitrary answer), documented exceptions. Sampled end to end over a stand-in connection, and so are the node called and the credentials sent.''',
'C33': '''The commands of `sus-tool.py`, called with the values argparse hands over (loaded from the script itself; files, node and `os.urandom` are recording stand-ins): mkseal for any outpoint; mkclosetx: the printed hexadecimal text against a closed form of the template for any one to three seals, refused exactly when two are equal; mkwitness for any transaction (search over its inputs cut by an invariant), one to three seals, by bytes or by id; verifywitness for any witness file and each combination of digest, seal file and seal hash. The script itself, run with command lines in a scratch directory from making seals to verifying witnesses, is sampled, and so are malformed arguments, the info commands and files that exist already.''',
}
here = os.path.dirname(os.path.abspath(__file__))
tail = open(here + '/design_tail.md').read()
rows = ['', '', '| planted bug | property | what it breaks | caught by |', '|---|---|---|---|']
caught = json.load(open(here + '/caught.json'))
for k in sorted(os.listdir('/verif/seeded')):
    m = json.load(open('/verif/seeded/%s/meta.json' % k))
    rows.append('| %s | %s | %s | %s |' % (k, m['property'], m['what_it_breaks'], caught.get(k, 'not run')))
tail = tail.replace('@TABLE@', '\n'.join(rows))
titles = {}
for l in open('/verif/properties.jsonl'):
    p = json.loads(l); titles[p['id']] = p['title']
out = head
for k in sorted(P): out += '* **%s %s.** %s\n' % (k, titles[k], P[k])
open('/verif/DESIGN.md', 'w').write(out + tail)
