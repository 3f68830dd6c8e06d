"""The property table: one source for properties.jsonl and MANIFEST.json (python3 tools/mk.py)."""

# id: (title, statement, over, quantifier text, why tests cannot, files, [(mechanism, where)], technique, level note)
SUM = "interprocedural dataflow over MIR: term-valued transfer functions compared with a written contract"
T = {}


def p(id, title, statement, over, text, why, files, mech, technique=SUM, note=""):
    T[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                 technique=technique, note=note)


p("C01", "Nodes are content addressed",
  "Every node the library writes to a backend is stored under exactly the combination of the two child values stored with it, computed by the construct in left, right order. "
  "This holds for every operation of raw trees, vectors, lists, packed containers and merkleization, whatever the backend held before.",
  ["inputs", "histories"], "all operations, arguments, prior tree contents and construct definitions",
  "Tests compare a few final roots; a node written under a wrong key, or with children swapped, only shows when that node is read back later.",
  ["src/raw.rs", "src/utils.rs", "src/memory.rs", "le/src/basic.rs"],
  [("Raw::set inserts every intermediate it computes", "src/raw.rs Raw::set"), ("vector_tree inserts each level", "src/utils.rs vector_tree"),
   ("empty subtrees are inserted with their children", "src/memory.rs InheritedDigestConstruct::empty_at")],
  "MIR dataflow: at every insert call the key must be the combination of the stored children")

p("C02", "Raw tree get, set and subtree follow the generalized index",
  "Reading at a generalized index returns the node reached by following the index's left and right turns from the root, or nothing when a node on the way has no children. "
  "Writing replaces exactly the node at that index: every sibling off the path keeps its value and the new root is the recombination along the path. "
  "A subtree handle has the value at the index as its root.",
  ["inputs", "histories"], "all indices, roots, values and database contents",
  "Tests write at a handful of indices of depth up to five in one backend.",
  ["src/raw.rs", "src/index.rs"],
  [("descent along the route", "src/raw.rs Raw::get"), ("collect the path down, rebuild it upwards", "src/raw.rs Raw::set")])

p("C03", "Owned handles mark exactly their root; dangling handles mark nothing",
  "An owned handle's mutation marks its new root before it removes the mark from its old root, exactly once each, and dropping it removes exactly one mark from its current root. "
  "A dangling handle never marks or unmarks anything. Creating a collection leaves exactly the returned handle's root marked.",
  ["histories", "inputs"], "all mutating operations and drops, on every handle kind",
  "Tests never count marks; an imbalance only shows as a leaked or prematurely collected node much later.",
  ["src/raw.rs", "src/vector.rs", "src/list.rs", "src/length.rs", "src/packed.rs"],
  [("rootify new, then unrootify old", "src/raw.rs Raw::set"), ("unrootify on drop when owned", "src/raw.rs Tree::drop"),
   ("inner owned handle dropped after the list root is marked", "src/length.rs LengthMixed::create")])

p("C04", "The in-memory store counts references and keeps what is referenced",
  "Inserting a node makes its children retrievable and adds one reference to each child, once per stored node; marking a root adds one reference. "
  "Removing a root mark takes one reference away and deletes the node only when none is left, releasing its children in turn; other entries are untouched. "
  "Nodes populated from a proof are retrievable afterwards and are never deleted by reference counting.",
  ["histories", "inputs"], "all store contents and all sequences of inserts, marks and removals",
  "Tests check the number of entries after a few operations; sharing patterns between nodes are not enumerated.",
  ["src/memory.rs"],
  [("reference counts in the entry", "src/memory.rs InMemoryBackend::insert"), ("recursive release", "src/memory.rs InMemoryBackend::remove"),
   ("uncounted entries", "src/memory.rs InMemoryBackend::populate")])

p("C05", "Backend failures surface as the operation's own failure",
  "When any backend call made by an operation fails, the operation stops and returns that failure as its backend error; it never reports success, panics, or replaces the error by another. "
  "No further write, root marking or unmarking reaches the backend after the failed call.",
  ["fault_sequences", "inputs"], "every backend call of every public operation failing at any point",
  "The test backend never fails.",
  ["src/raw.rs", "src/vector.rs", "src/length.rs", "src/packed.rs", "src/proving.rs", "src/utils.rs", "le/src/basic.rs", "le/src/elemental_fixed.rs", "le/src/partial.rs"],
  [("error conversion", "src/traits.rs From<DBError> for Error"), ("propagation at every call", "src/raw.rs, src/vector.rs, src/length.rs, src/packed.rs")],
  "MIR dataflow: every path on which a backend call fails must return that failure and write nothing afterwards")

p("C06", "Vectors read and write the right leaf and grow and shrink in place",
  "A vector of given length and optional maximum reads and writes element i at position i of a complete tree whose depth is the smallest that holds the maximum (or the length when growable). "
  "Pushing on a full growable vector puts the old tree on the left of a new root; popping replaces the largest emptied subtree by the empty subtree of that size and halves the tree when it can; all other elements keep their values. "
  "Pop returns the last element, and creation yields the empty tree of the right depth.",
  ["inputs", "histories"], "all lengths, maxima, indices and values",
  "Tests push and pop one hundred elements on growable lists only and never on bounded vectors.",
  ["src/vector.rs", "src/raw.rs"],
  [("index at depth", "src/vector.rs Vector::raw_index"), ("extend and shrink", "src/vector.rs Vector::extend, Vector::shrink"), ("emptied subtree", "src/vector.rs Vector::pop")])

p("C07", "Packed values occupy exactly their own bytes of the chunks",
  "A packed vector reads element i from the bytes at i times the value size, continuing over as many chunks as the value needs, and a write changes exactly those bytes. "
  "Pushing adds only the chunks the new element needs; popping returns the last element, removes the chunks no remaining element uses and clears only the popped element's bytes.",
  ["inputs", "histories"], "all element positions, values and chunk contents, for values smaller and larger than a chunk",
  "Tests only use values of twice the chunk size, so two values never share a chunk.",
  ["src/packed.rs", "src/utils.rs"],
  [("byte ranges per chunk", "src/packed.rs coverings"), ("read-modify-write of a chunk", "src/packed.rs PackedVector::write"), ("chunk bookkeeping", "src/packed.rs PackedVector::push, PackedVector::pop")])

p("C08", "A list's root commits to its items and its current length",
  "After every successful change of a list its root is the combination of the item tree's root and the current number of items, in that order, and both are reachable from it. "
  "The handle's length is the number of items after the change, and a failed change to the items leaves the list's root as it was.",
  ["inputs", "histories"], "all list and packed-list operations, lengths and maxima",
  "Tests compare lengths and a few roots with recorded values of the same code.",
  ["src/length.rs", "src/list.rs", "src/packed.rs"],
  [("items left, length right", "src/length.rs LengthMixed::with_mut"), ("initial commitment", "src/length.rs LengthMixed::create")])

p("C09", "Out-of-bounds accesses and over-capacity growth are rejected",
  "Reading or writing an element at or beyond the length, and pushing onto a collection already at its maximum, is refused with the access-overflow error and never touches the backend. "
  "Creating a collection with a length above its maximum or a maximum of zero is refused as an invalid parameter, and every access inside the bounds is accepted. "
  "Popping an empty collection yields nothing.",
  ["inputs", "histories"], "all lengths, maxima and indices, for vectors, lists and their packed forms",
  "No test exercises an out-of-range index or a full bounded collection.",
  ["src/vector.rs", "src/packed.rs", "src/list.rs"],
  [("bounds checks", "src/vector.rs Vector::get, Vector::set, Vector::push"), ("packed bounds checks", "src/packed.rs PackedVector::get, PackedVector::set, PackedVector::push"), ("parameter check", "src/vector.rs Vector::create")])

p("C10", "A refused operation leaves the handle and the backend as they were",
  "When an operation is refused for its arguments (index out of range, collection full, invalid parameters), the handle keeps its root, length and maximum and no write reaches the backend. "
  "A failed single write to a raw tree also leaves the handle's root unchanged.",
  ["inputs", "fault_sequences"], "all refused operations on all handle kinds",
  "Tests never look at a handle after an error.",
  ["src/raw.rs", "src/vector.rs", "src/packed.rs", "src/length.rs"],
  [("checks before effects", "src/vector.rs, src/packed.rs"), ("root assigned last", "src/raw.rs Raw::set")],
  "MIR effect analysis: on every refusing path the set of writes is empty and the handle's final state equals its initial state")

p("C11", "Reads never write",
  "Reading a raw tree, vector, list or packed collection, decoding a value from a tree, resolving a partial index or fetching a partial value only reads from the backend: it inserts no node and marks or unmarks no root, on success and on failure.",
  ["inputs", "histories"], "all read operations, all database contents",
  "Tests use one mutable in-memory store and cannot see a redundant write.",
  ["src/raw.rs", "src/vector.rs", "src/packed.rs", "le/src/basic.rs", "le/src/fixed.rs", "le/src/partial.rs"],
  [("read paths call only get", "src/raw.rs Raw::get, Raw::subtree")],
  "MIR effect analysis: the backend effects of every read entry point are within {get}")

p("C12", "The proving wrapper is transparent and records exactly what was read before",
  "A proving backend answers every read, insert and root marking exactly as the backend it wraps, including failures, and passes writes on unchanged. "
  "It records a node with its children when it is read successfully and was not itself inserted through the wrapper, and records nothing else; resuming from a state continues with that state, and the resulting proof is the recorded nodes.",
  ["inputs", "histories"], "all interleavings of reads and writes through the wrapper",
  "The proving test reads two paths; reads after inserts of the same node do not occur.",
  ["src/proving.rs"],
  [("record on get unless inserted", "src/proving.rs ProvingBackend::get"), ("note inserts, pass through", "src/proving.rs ProvingBackend::insert")])

p("C13", "Compact proofs mirror the recorded nodes",
  "Compacting a proof from a root expands exactly the nodes the proof contains and keeps the other values as leaves; unpacking a compact proof yields every combined node under the combination of its parts, together with the root. "
  "A compact proof built from a leaf, its siblings and an index places them along the index's route, and exists only when the number of siblings equals the depth.",
  ["inputs"], "all proofs, roots, indices and sibling lists",
  "Tests compact one proof and check one index.",
  ["src/proving.rs"],
  [("expansion by lookup", "src/proving.rs Proofs::into_compact"), ("fold with recombination", "src/proving.rs CompactValue::fold"), ("placement along the route", "src/proving.rs CompactValue::from_plain")])

p("C14", "Backend wrappers delegate faithfully",
  "The error-erasing wrapper forwards every call to the wrapped backend with the same arguments, returns the same answer, and turns a failure into a failure. "
  "The discarding backend accepts every write and root marking, and refuses every read.",
  ["inputs", "fault_sequences"], "all calls and arguments",
  "No test goes through the error-erasing wrapper.",
  ["src/traits.rs", "src/memory.rs"],
  [("delegation", "src/traits.rs DynBackend"), ("discarding backend", "src/memory.rs NoopBackend")])

p("C15", "Scalars encode little endian in one chunk",
  "An unsigned integer of any supported width encodes to one chunk holding its little-endian bytes followed by zero bytes, a boolean as the integer one or zero, a 256-bit hash or value as itself, and the unit value as the zero chunk. "
  "A 512-bit hash encodes as its two halves combined in order. Encoding a scalar of one chunk writes nothing to the backend.",
  ["inputs"], "all values of every scalar type",
  "The tests fix a handful of vectors per width.",
  ["le/src/basic.rs", "le/src/fixed.rs", "le/src/lib.rs"],
  [("integer encoding", "le/src/basic.rs impl_builtin_uint"), ("hash encoding", "le/src/fixed.rs"), ("length chunk", "le/src/lib.rs From<usize> for Value")])

p("C16", "Sequences and composites encode with the specified layout",
  "Tuples, fixed arrays and composite lists merkleize their elements' roots in order; packed (compact) sequences concatenate the elements' little-endian bytes, or bits in least-significant-first order, into chunks padded with zeros. "
  "Fixed-length kinds use a tree sized to the length, bounded kinds a tree sized to the maximum's chunks; variable-length kinds combine the tree's root with the element count, optional values with a type tag of zero or one.",
  ["inputs"], "all element values and lengths, all supported kinds",
  "Tests cover a few lengths of a few element types; other widths, lengths and nestings are not exercised.",
  ["le/src/elemental_fixed.rs", "le/src/elemental_variable.rs", "le/src/fixed.rs", "le/src/variable.rs", "le/src/utils.rs"],
  [("chunk packing", "le/src/elemental_fixed.rs impl_builtin_fixed_uint_vector"), ("length mix-in", "le/src/utils.rs mix_in_length"), ("type mix-in", "le/src/utils.rs mix_in_type")])

p("C17", "Decoding reads back the positions and bytes encoding wrote",
  "Decoding a scalar takes its value from the same leading little-endian bytes encoding writes; decoding a tuple, array, list or packed sequence reads element i from the position, and the bytes or bit, where encoding puts element i, and returns the elements in order with the committed length. "
  "Optional values decode by the same tags encoding writes.",
  ["inputs"], "all roots and database contents, all supported kinds",
  "Round trips in the tests use one or two values per kind.",
  ["le/src/basic.rs", "le/src/fixed.rs", "le/src/elemental_fixed.rs", "le/src/elemental_variable.rs", "le/src/variable.rs", "le/src/utils.rs"],
  [("scalar decoding", "le/src/basic.rs"), ("element-wise decoding", "le/src/elemental_fixed.rs from_composite_vector_tree"), ("packed decoding", "le/src/elemental_fixed.rs")])

p("C18", "Derived encodings follow the declaration order and variant number",
  "A derived struct encodes as the merkle tree of its fields' encodings in declaration order, packed where marked compact, and decodes field i from position i. "
  "A derived enum encodes its variant's fields the same way, combined with the variant's position in the declaration, and decodes that same variant; unknown tags are rejected, and a fieldless variant requires the zero value.",
  ["programs", "inputs"], "all accepted shapes of type definitions (represented by one fixture per shape) and all field values",
  "Tests derive for a few types, always with the same field counts.",
  ["le/derive/src/lib.rs", "le/src/utils.rs"],
  [("struct and enum encoding", "le/derive/src/lib.rs into_tree_derive"), ("struct and enum decoding", "le/derive/src/lib.rs from_tree_derive"), ("partial handles", "le/derive/src/lib.rs partialable_derive")],
  SUM + ", over the expansion of a fixture per shape of type")

p("C19", "Decoding rejects what no encoder produces",
  "Decoding refuses, as a corrupted database, a missing node, a length or type tag that does not fit the machine word, a list longer than its maximum, an unknown optional or enum tag, and a unit value or empty variant that is not the zero chunk. "
  "It never turns such a database into a value.",
  ["inputs"], "all database contents",
  "No test decodes a malformed tree.",
  ["le/src/utils.rs", "le/src/elemental_variable.rs", "le/src/basic.rs", "le/src/fixed.rs", "le/derive/src/lib.rs"],
  [("word-size check", "le/src/utils.rs decode_with_length, decode_with_type"), ("maximum check", "le/src/elemental_variable.rs"), ("tag check", "le/src/basic.rs Option::from_tree")])

p("C20", "Partial values address and flush to their own position",
  "A partial index resolves to the tree position of its field or list item, composed through all its parents, and list or vector items outside the length are refused. "
  "A partial value fetches from and flushes to that position only, at most once per change and only if set; a partial vector flushes its touched items and then appends its pushed values to its own list, keeping the length commitment.",
  ["inputs", "histories"], "all index compositions, lengths and pending changes",
  "One derive test flushes one field of one struct.",
  ["le/src/partial.rs", "le/derive/src/lib.rs"],
  [("index resolution", "le/src/partial.rs PartialIndex::resolve"), ("flush", "le/src/partial.rs PartialValue::flush, PartialVec::flush")])

p("C21", "Leaking and reloading a handle preserves it",
  "The metadata of any handle contains its root, length and maximum, and a handle rebuilt from metadata, or converted to another handle kind over the same tree, has that same root, length and maximum and addresses the same elements. "
  "Taking a list apart and rebuilding it from its root recovers the length from the tree.",
  ["inputs", "histories"], "all handle states of all kinds",
  "One test rebuilds one growable list.",
  ["src/raw.rs", "src/vector.rs", "src/list.rs", "src/length.rs", "src/packed.rs"],
  [("metadata and reload", "src/traits.rs Leak"), ("rebuild from the root", "src/length.rs LengthMixed::reconstruct")])

p("C22", "Generalized indices form a consistent algebra",
  "Left, right, parent, descendant and depth-based constructors of indices agree with the binary tree numbering: the children of position n are 2n and 2n+1, the parent inverts both, and position i at depth d is 2^d+i. "
  "The route of an index lists its turns from the root, and composing an index with a sub-index follows the first route and then the second.",
  ["inputs"], "all positions representable in the machine word",
  "Tests check six routes and two descendant queries.",
  ["src/index.rs"],
  [("index arithmetic", "src/index.rs Index"), ("route", "src/index.rs Index::route"), ("composition", "src/index.rs Index::sub")])

p("C23", "Merkle trees are complete trees of the required depth",
  "The tree built over n values with an optional maximum m is the complete binary tree of the smallest depth that holds m (or n) leaves, with the values as its first leaves in order and empty subtrees after them, and every inner node is written before its parent. "
  "The number of chunks needed for n packed values is the byte length divided by the chunk size, rounded up.",
  ["inputs"], "all value counts and maxima within a machine word",
  "Tests compare roots for a few small sizes.",
  ["src/utils.rs"],
  [("level-by-level construction", "src/utils.rs vector_tree"), ("depth", "src/utils.rs required_depth"), ("chunk count", "src/utils.rs host_max_len")])

p("C24", "Every supported feature combination builds",
  "The core and encoding crates type-check with and without the standard library and with each optional feature (derive, serde, codec), alone and together. Each combination offers the same public operations with the same signatures (up to the map type of the standard library or its alloc counterpart, and its error traits), and each optional feature adds exactly its own traits and derives.",
  ["configurations"], "all documented feature combinations of the workspace's crates",
  "The tests build with default features only.",
  ["Cargo.toml", "le/Cargo.toml", "src/lib.rs", "le/src/lib.rs"],
  [("feature gates", "Cargo.toml, le/Cargo.toml"), ("conditional imports", "src/memory.rs, src/proving.rs, le/src/partial.rs")],
  "type checking of all 16 feature combinations through a probe crate, and comparison of the public items, signatures and trait implementations the compiler lists for each",
  note="static: complete over the 16 combinations; signatures are compared as the compiler prints them")

p("C25", "Handle ownership is enforced by the types",
  "A program cannot use a handle after dropping it or converting it away, cannot obtain an owned handle to a subtree or inside a list, cannot treat an owned handle as dangling or the reverse without the conversion, cannot create a dangling collection, and cannot write through a backend that only supports reading. "
  "Such programs do not compile, while their correct counterparts do.",
  ["programs"], "all programs using the public handle types (represented by one witness per forbidden step)",
  "Run-time tests cannot express programs that must not compile.",
  ["src/traits.rs", "src/raw.rs", "src/vector.rs", "src/list.rs", "src/length.rs", "src/packed.rs"],
  [("consuming drop and conversions", "src/traits.rs Tree"), ("status type parameter", "src/raw.rs Raw"), ("read and write backend traits", "src/traits.rs ReadBackend, WriteBackend")],
  "compile-fail witnesses with compiling twins: each forbidden step, for every handle kind and status, must be refused by the type or borrow checker at that step, and the same program with the correct step must compile",
  note="static: each witness is one program per forbidden step, handle kind and status; programs that combine several steps are not enumerated")

p("C26", "Merkleization only writes",
  "Encoding a value into a tree, building a vector tree and computing a root never read from the backend and never mark or unmark roots, so they work with the discarding backend and cannot fail unless the backend does. "
  "The root they return depends only on the value, not on what the backend holds.",
  ["inputs", "histories"], "all encodable values, all database contents",
  "Tests run the discarding backend for a few types only.",
  ["src/utils.rs", "le/src/basic.rs", "le/src/fixed.rs", "le/src/elemental_fixed.rs", "le/src/elemental_variable.rs", "le/src/lib.rs", "le/derive/src/lib.rs"],
  [("encoders call only insert", "src/utils.rs vector_tree"), ("root by discarding backend", "le/src/lib.rs tree_root")],
  "MIR effect and dependence analysis: the backend effects of every encoder are within {insert, empty_at} and the result's terms contain no database read")

p("C27", "Digest constructs combine both children in order and build empty subtrees",
  "A digest construct combines two values by hashing the bytes of the left followed by the bytes of the right. "
  "The inherited construct's empty subtree of depth d is d times the combination of the previous one with itself starting from the default value, with every level stored; the unit construct's empty subtree is the default value at every depth.",
  ["inputs"], "all values and depths",
  "Tests fix a few roots of one hash function.",
  ["src/memory.rs"],
  [("hash of the concatenation", "src/memory.rs InheritedDigestConstruct::intermediate_of, UnitDigestConstruct::intermediate_of"), ("empty subtrees", "src/memory.rs InheritedDigestConstruct::empty_at")])

p("C32", "Serialised bounded lists carry exactly their contents and stay bounded when read back",
  "With the optional serialisation features, a bounded list is written (through serde and through parity-codec) exactly as its elements are; reading one back gives exactly the elements read, "
  "passes a failure of the reader on, and fails when there are more elements than the list's maximum. Compact wrappers are written and read as what they wrap, "
  "an end value as its 32 bytes, and a compact proof value as alternative 0 (single) or 1 (combined) followed by its content, which is what is read back.",
  ["inputs"], "all values, serialisers and deserialisers (each an opaque stand-in)", "No test enables the serialisation features.",
  ["le/src/variable.rs", "le/src/lib.rs", "src/proving.rs"],
  [("manual implementations", "le/src/variable.rs Serialize, Deserialize, Encode and Decode of MaxVec"), ("derived implementations", "le/src/lib.rs Compact and Value, src/proving.rs CompactValue")])

NA = {}


def na(id, title, statement, over, text, why, files, mech, reason):
    p(id, title, statement, over, text, why, files, mech)
    NA[id] = reason


na("C28", "Roots equal the SimpleSerialize specification's",
   "The root computed for any value equals the root the SimpleSerialize specification assigns to it.",
   ["inputs"], "all values of all supported types", "Tests compare a few specification vectors.",
   ["le/src/lib.rs"], [("encoders", "le/src")],
   "numerical equality with an external specification over all values; its structural parts (layout, chunking, byte order, mix-ins) are decided by C15, C16, C23 and C27")
na("C29", "The tree depends only on the contents, not on the history",
   "Two collections with the same contents, length and maximum have the same root and the same stored nodes, whatever sequence of operations produced them.",
   ["histories"], "all operation histories", "Tests compare one pair of orders.",
   ["src/raw.rs", "src/vector.rs"], [("canonical empty subtrees", "src/vector.rs Vector::pop")],
   "an equality over unbounded histories of run-time contents; the per-operation tree effects it would follow from are decided by C02, C06, C07 and C08")
na("C30", "Operations terminate without panic on any stored length",
   "Decoding and reading terminate without panicking or exhausting memory for every length a database may claim.",
   ["inputs"], "all stored lengths", "No test stores a hostile length.",
   ["src/vector.rs", "le/src/partial.rs", "le/src/elemental_variable.rs"], [("depth loops", "src/vector.rs Vector::depth")],
   "bounds run-time quantities (lengths near the machine word) that no sound static argument in reach can bound; the current code does overflow for lengths above 2^63 (see DESIGN.md)")
na("C31", "Nothing unreachable stays in the store",
   "After any history, the in-memory store contains exactly the nodes reachable from the marked roots.",
   ["histories"], "all operation histories", "Tests count entries after two short histories.",
   ["src/memory.rs"], [("recursive release", "src/memory.rs InMemoryBackend::remove")],
   "a reachability equality over run-time heap contents and unbounded histories (and false for intermediate nodes of multi-step updates by design); the per-call counting it builds on is decided by C04 and C03")
