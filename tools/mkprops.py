"""writes properties.jsonl"""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)
p('C01', 'Word primitives are exact for every 64-bit word',
  'Every broadword primitive (population count, per-byte counts, byte sum, byte and bit reversal, select-in-word, most and least significant bit, bit position, same-msb, the parallel byte and 9-bit comparisons) returns exactly the mathematical value of its definition for every 64-bit argument that meets its documented precondition. The result is the same in every build configuration (compiler intrinsics on or off, hardware popcount on or off). Select-in-word(x,k) is the position of the (k+1)-th one of x for every k below the number of ones.',
  ['inputs', 'configurations'], 'every 64-bit word (and pair of words / rank), every combination of the two build options',
  'the unit tests draw a few thousand random words in the one configuration the build picks; the input space is 2^64..2^128 and the portable code paths are not even compiled in the tested configuration',
  ['broadword.hpp', 'intrinsics.hpp', 'tables.hpp'], [('table + broadword arithmetic', 'broadword.hpp'), ('compiler intrinsics', 'intrinsics.hpp')], ['return values of broadword::*'])
p('C02', 'Bit vector reads return the stored bits',
  'For every bit vector and every in-range position, the element access, the multi-bit reads of up to 64 bits, the word read (zero-filled past the end) and the 56-bit unaligned read return exactly the stored bits, and successor/predecessor of a one or of a zero return the nearest such position on the requested side whenever one exists. No read touches memory outside the vector.',
  ['inputs'], 'every bit sequence, every position and every length 0..64',
  'tests sample random positions of a few random vectors; word-boundary and length-64 cases depend on position and length together',
  ['bit_vector.hpp'], [('get_bits/get_word/get_word56', 'bit_vector.hpp'), ('predecessor*/successor* word scans', 'bit_vector.hpp')], ['bit_vector read API'])
p('C03', 'Bit vector builder records exactly the bits of any operation history',
  'After any sequence of push_back, append_bits, append, zero_extend, one_extend, set, set_bits, reverse, swap and reserve calls, the vector built from the builder (and one built directly from a range) has exactly the length and bits that the same sequence produces on an abstract bit sequence. Storage past the last bit stays zero, and no operation reads or writes outside the builder\'s storage. (A builder is not appended to itself.)',
  ['histories', 'inputs'], 'every finite sequence of builder operations with in-contract arguments, from any initial size and fill',
  'tests run short hand-picked sequences; correctness depends on the bit offset and spare capacity left by all earlier operations',
  ['bit_vector.hpp'], [('size/last-word pointer/zero padding invariant', 'bit_vector.hpp bit_vector_builder'), ('storage stolen by bit_vector(builder*)', 'bit_vector.hpp')],
  ['bit_vector built from the builder'], [('m_bits, m_size, m_cur_word', 'words, bit count and pointer to the last word', 'bit_vector_builder')])
p('C04', 'Bit enumerators walk the sequence exactly',
  'A forward enumerator started at any position returns, for any interleaving of single-bit reads, reads of up to 64 bits and zero-skips, exactly the bits and zero-run lengths of the underlying sequence, and reports its position correctly after each step. A unary enumerator started anywhere returns, for any interleaving of next, skip, skip-without-moving and skip-over-zeros, exactly the positions of the corresponding ones or zeros. No step reads outside the vector.',
  ['histories', 'inputs'], 'every bit sequence, start position and interleaving of enumerator operations that stay inside the sequence',
  'tests use one or two operations from fixed starts; the buffered word state after arbitrary interleavings is what can go wrong',
  ['bit_vector.hpp'], [('enumerator buffer refill', 'bit_vector::enumerator'), ('unary buffer', 'bit_vector::unary_enumerator')], ['enumerator return values and position()'])
p('C05', 'Rank and select of the indexed bit vector agree with counting',
  'For every bit sequence, with and without select hints, the indexed bit vector reports the exact number of ones and zeros, rank and rank0 of every position 0..size equal the number of ones/zeros before it, and select and select0 of every in-range ordinal return the position of that one/zero. The answers do not depend on whether hints were requested.',
  ['inputs', 'configurations'], 'every bit sequence, every position/ordinal, each combination of hint options',
  'tests use a few random densities; block, sub-block and hint boundaries depend on exact counts and only some shapes reach them',
  ['rs_bit_vector.hpp', 'rs_bit_vector.cpp'], [('two-level rank index', 'rs_bit_vector.cpp build_indices'), ('hinted binary search + 9-bit parallel compare', 'rs_bit_vector.hpp select')], ['rank, rank0, select, select0, num_ones, num_zeros'])
p('C06', 'Dense/sparse arrays select the right position',
  'For every bit vector, a darray over its ones (or zeros) reports their exact number and returns the position of every one of them, whatever mixture of dense and sparse blocks the positions form. The 64-sparse variant built by any sequence of appends with gaps of at most 64 reports the bits it was given and returns the position of each of its ones.',
  ['inputs', 'histories'], 'every bit sequence and ordinal; every sequence of gap lengths 0..63',
  'tests use a few densities; the dense/overflow switch depends on the exact span of 1024 consecutive positions (threshold 2^16)',
  ['darray.hpp', 'darray64.hpp'], [('block/sub-block inventories and overflow list', 'darray.hpp'), ('append-time inventories', 'darray64.hpp')], ['select, num_positions, num_ones, bits'])
p('C07', 'Elias-Fano answers match the encoded monotone sequence',
  'For every non-decreasing sequence within the declared universe (and every bit vector encoded as the sequence of its ones), size and number of elements are exact, select returns each element, rank counts the elements below each position up to the bound (rank of the bound itself is the number of elements), membership of every position below the bound is exact, predecessor/successor return the neighbouring elements, delta and range-select return the differences and neighbouring pairs, and a select enumerator started at any element yields the rest in order.',
  ['inputs', 'histories'], 'every universe bound, every non-decreasing sequence, every query, every enumerator start',
  'tests use a few random sparsities; the low-bit width and the high-bit runs vary with universe/count ratios never sampled (all-equal runs, width 0, last element equal to the bound)',
  ['elias_fano.hpp'], [('high/low bit split', 'elias_fano.hpp builder'), ('select via darray + low bits', 'elias_fano.hpp')], ['elias_fano query API'])
p('C08', 'Compressed integer lists return the stored integers',
  'An Elias-Fano list and an Elias-Fano compressed list built from any sequence of unsigned integers (whose sum stays below the largest 64-bit value, and each of which does for the compressed list) have the length of the input and return each input integer at its index; the former also returns the exact sum.',
  ['inputs'], 'every integer sequence (including zeros and very large values) and every index',
  'tests use one random distribution; prefix-sum boundaries, zero runs and code-length changes are value dependent',
  ['elias_fano_list.hpp', 'elias_fano_compressed_list.hpp'], [('prefix sums in Elias-Fano, delta access', 'elias_fano_list.hpp'), ('variable-length codes + Elias-Fano boundaries', 'elias_fano_compressed_list.hpp')], ['operator[], size, sum'])
p('C09', 'Gamma-coded vectors return the stored integers',
  'A gamma vector and a gamma-bit vector built from any sequence of unsigned integers (below the largest one or two 64-bit values) have the length of the input and return each input integer at its index, and a forward enumerator started at any index yields the rest in order, also after skips.',
  ['inputs', 'histories'], 'every integer sequence, index, enumerator start and interleaving of next and skip',
  'tests use a narrow range of values; code lengths up to 63 bits and inventory boundaries are not reached',
  ['gamma_vector.hpp', 'gamma_bit_vector.hpp', 'forward_enumerator.hpp', 'darray64.hpp'], [('unary lengths in darray64 + low bits', 'gamma_vector.hpp'), ('enumerators', 'forward_enumerator specialisations')], ['operator[], size, forward_enumerator'])
p('C10', 'Balanced-parentheses matching finds the true partner',
  'For every balanced sequence of parentheses, find_close of every open position is its matching close, find_open of every close position is its matching open, and enclose of every non-root open position is the open of the tightest enclosing pair. No query reads outside the vector.',
  ['inputs'], 'every balanced sequence (any depth and length) and every position',
  'tests try random trees and a few extreme shapes; word, block, superblock and min-tree crossings depend on exact excess profiles',
  ['bp_vector.hpp', 'bp_vector.cpp'], [('in-word tables and parallel compare', 'bp_vector.cpp'), ('range-min tree over block excess minima', 'bp_vector.cpp')], ['find_close, find_open, enclose'])
p('C11', 'Excess and its range minimum are exact and leftmost',
  'For every parentheses sequence, excess of a position equals opens minus closes before it, and the excess range-minimum query over any inclusive range returns the leftmost position at which the excess is minimal in the range, together with that minimum.',
  ['inputs'], 'every bit sequence and every range a <= b',
  'tests compare a sample of ranges on random trees; ties and boundaries across words, blocks, superblocks and padding are position dependent',
  ['bp_vector.hpp', 'bp_vector.cpp'], [('excess from rank', 'bp_vector.cpp'), ('excess_rmq block/superblock/min-tree search', 'bp_vector.cpp')], ['excess, excess_rmq'])
p('C12', 'Range minimum queries return the leftmost minimum',
  'For every sequence of values and comparator, a cartesian-tree index built from the range or value by value has the size of the input and answers every inclusive range query with the leftmost index of a minimal value of the range, without access to the values.',
  ['inputs'], 'every value sequence (with ties), every comparator that is a strict weak order, every range',
  'tests compare random and monotone arrays of fixed sizes; ties and deep monotone stacks at block boundaries are value dependent',
  ['cartesian_tree.hpp', 'bp_vector.cpp'], [('stack-based builder, reversed parentheses', 'cartesian_tree.hpp'), ('rmq via excess_rmq', 'cartesian_tree.hpp')], ['rmq, size'])
p('C13', 'Top-k enumeration yields the best entries in order',
  'For every vector and inclusive range, the top-k query returns exactly the min(k, length) entries of the range in non-increasing value order with ties by increasing index, each with its correct value and index, and the enumerator yields every entry of the range exactly once in that order before reporting the end.',
  ['inputs', 'histories'], 'every value vector (with ties), range and k',
  'tests use random values of one size; ties and range splits at the extremes are value dependent',
  ['topk_vector.hpp', 'cartesian_tree.hpp'], [('heap of sub-ranges split at the range maximum', 'topk_vector.hpp')], ['topk, get_topk_enumerator'])
p('C14', 'Freezing and mapping back preserves every structure',
  'For every structure of the library in any state, freezing writes exactly the number of bytes that the reported size accounts for (plus the header), mapping the written image yields a structure that consumes exactly those bytes and answers every query as the original does, with or without warm-up. Mappable vectors return the elements they were built from, through construction, assignment, stealing, swapping and clearing, and free their storage exactly once.',
  ['inputs', 'histories'], 'every structure type and content (including empty members), every history of vector operations',
  'tests freeze one small object and check a few fields; member order, sizes and flags must agree for all structure types and contents',
  ['mapper.hpp', 'mappable_vector.hpp'], [('one visitor-driven member order for freeze, map and size', 'mapper.hpp; map() of each structure'), ('ownership through the deleter', 'mappable_vector.hpp')], ['freeze, map, size_of, size_tree_of'])
p('C15', 'Integer codecs are exact inverses',
  'Variable-byte coding appends exactly the size it announces and decoding at that offset returns the original value and length for every 64-bit value and any surrounding bytes; the signed/unsigned folding and its inverse are mutually inverse bijections on all 64-bit values; a nibble vector returns every nibble it was built from; ceiling division is exact when the sum fits.',
  ['inputs'], 'every 64-bit value, offset and surrounding content; every nibble sequence',
  'no test covers these at all except through other structures',
  ['vbyte.hpp', 'util.hpp', 'nibble_vector.hpp'], [('7-bit chunks with continuation bit', 'vbyte.hpp'), ('zigzag folding', 'util.hpp'), ('packed nibbles', 'nibble_vector.hpp')], ['append_vbyte, decode_vbyte, vbyte_size, int2nat, nat2int, nibble_vector'])
p('C16', 'Line readers return exactly the lines of the input',
  'For every text without NUL bytes, reading it through the file line reader, the file line iterator, or the memory-mapped line iterator yields each line exactly once and in order, including empty lines, lines of any length and a last line without newline, and trimming removes exactly the trailing newline characters.',
  ['inputs'], 'every byte sequence without NULs (file readers) and every buffer (memory-mapped reader), trim on or off',
  'no test covers these functions; chunk-size, missing-final-newline and carriage-return cases depend on exact lengths',
  ['util.hpp'], [('chunked fgets loop', 'util.hpp fast_getline'), ('iterator facades', 'util.hpp line_iterator, buffer_line_iterator')], ['fast_getline, lines, mmap_lines'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
