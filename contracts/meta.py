"""what each check covers, for the evidence files"""
TRUSTED = ['clang 18 front end at -O0 and the LLVM passes always-inline, sroa, simplifycfg, loop-simplify (extraction)',
           '/verif/engine (IR parser, symbolic execution / VC generation, instantiation of quantified facts)',
           'z3 4.15 and cvc5 1.1.2',
           'library models in engine/models.py: std::vector, std::copy/reverse/swap, operator new/delete, boost::function, std::ostream::write, LLVM intrinsics']
ASSUME = ['containers hold fewer than 2^56 bits; allocation succeeds',
          'distinct objects do not overlap (each argument object has its own storage; no self-append)',
          'x86-64 little-endian, LP64; machine arithmetic is modelled exactly as bit-vectors (no mathematical-integer abstraction)']
DRIVER = {'C03': dict(leaks=True), 'C14': dict(leaks=True)}
CW = 'random/boundary-directed search on the real code, used to find failing inputs; stands in for functions not under a discharged contract'
NA = {}
PROPS = {
 'C01': dict(level='proof', note='every broadword operation (popcount, bit positions, reversals, in-word select, parallel compares) in three configurations, all words, no bound', configs=[(1, 0), (0, 0), (1, 1)], budget=15, bounded=CW, assume=['bytes_sum: the byte total is below 256; leq_step_8: 7-bit fields; select_in_word: k below the number of ones; msb/lsb/bit_position: non-zero']),
 'C02': dict(level='proof', note='every read and search of bit_vector, for all contents, positions and lengths; padding invariant assumed here is established by C03', bounded=CW),
 'C03': dict(level='proof', note='each builder operation preserves the representation invariant and changes the abstract sequence as specified, so any history does; std::vector is modelled', bounded=CW),
 'C04': dict(level='proof', note='each enumerator step preserves the buffer invariant and returns what the abstract sequence says, so any interleaving does', bounded=CW),
 'C05': dict(level='proof', note='rank, rank0, select, select0, num_ones/num_zeros for every content, position and hint setting, on top of an index invariant that build_indices establishes for every bit vector', bounded=CW, assume=['objects come from the range constructor or from mapping such an object (a default-constructed rs_bit_vector has no index)']),
 'C06': dict(level='proof', note='darray over ones and zeros: construction establishes the block/sub-block/overflow inventories for every bit vector, select returns the exact position; darray64: every append preserves the inventories (gaps up to 63 zeros), construction from the builder keeps bits and inventories, select is exact', bounded=CW, assume=['objects come from their constructors (or from mapping such an object); fewer than 2^56 bits; darray64 gaps of at most 63 zeros']),
 'C07': dict(level='proof', note='for every non-decreasing sequence the builder accepts (and every bit vector, as the sequence of its ones): push_back and both constructions establish the high/low invariant; select, rank, membership, predecessor, successor, delta, range-select and every step of the select enumerator answer exactly by it', bounded=CW, assume=['fewer than 2^50 values, universe/count quotient below 2^55', 'objects come from their constructors (a default-constructed elias_fano holds no width)', 'no ones between two positions gives equal counts; a position holding a one exists when the counts differ; a zeroed vector counts no ones (each by induction over CN(p+1) = CN(p) + bit p, stated as facts)']),
 'C08': dict(level='proof', note='both lists, for every input sequence: the constructors encode the prefix sums / code boundaries of exactly that sequence, and operator[], size and sum answer exactly by it', bounded=CW, assume=['fewer than 2^50 integers, totals below 2^64 - 1, integers of the compressed list below 2^64 - 1', 'prefix sums do not wrap (precondition); code-length sums are monotone and at most 64 i (induction; its step is discharged)']),
 'C09': dict(level='proof', note='both gamma vectors, for every input sequence: the constructors put code i at the sum of the earlier code lengths, operator[] and every enumerator step (next, skip, construction at any index) return the integer', bounded=CW, assume=['fewer than 2^48 integers, each at most 2^64 - 2 (gamma) or 2^64 - 3 (gamma-bit)', 'objects come from their constructors (a default-constructed vector has no stop bit)', 'code-length sums are monotone and at most 64 i (induction; its step is discharged)']),
 'C14': dict(level='proof', note='mappable_vector in every ownership state (construction, assign, steal, swap, clear, destruction, access; storage freed exactly once); for each of the 17 mappable structures: swap exchanges every member, freeze then map (any flags, with and without warm-up) reproduces every member as a view of the image, bytes written = bytes read = size_of + 8', bounded='size_tree_of, real files and memory maps, answers of mapped structures: random/boundary-directed round trips on the real code (bounded stand-in)', assume=['the mapped bytes are the bytes the stream received (std::ostream::write and the file system are modelled); vectors below 2^50 elements']),
 'C15': dict(level='proof', note='vbyte coding for every value, offset and surrounding bytes; zigzag folding; nibble vector; ceiling division', bounded=CW),
 'C16': dict(level='proof', note='trimming, fast_getline, the file iterator and the memory-mapped iterator, for every NUL-free text, line length and read position: each step consumes exactly the next line and yields its characters (without the terminators it promises to drop); the end is reported exactly at the end of the text', bounded=CW, assume=['std::string, fgets (returns up to and including the next newline, at most n-1 characters; no read errors) and boost mapped_file_source are modelled', 'the text has no NUL bytes and is shorter than 2^55 bytes']),
}
