T = {}


def D(pid, title, statement, quant, why, files, mech, observe, over=("inputs", "configurations"), na=None):
    T[pid] = dict(title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, observe=observe, over=list(over))
    if na:
        T[pid]["na"] = na


FB = "src/fec_base.h"
TESTS = "The tests encode a few random buffers and erase a few fragment sets; out-of-range code symbols, which carry side information, occur with probability ~1/256 or ~1/65536 per symbol and are almost never combined with an erasure pattern."
D("P01", "Non-systematic Fermat-field code: any k of n fragments give the data back",
  "Encoding k data blocks with the non-systematic Fermat-prime code and keeping any k of the produced fragments, together with their recorded marks, always reproduces every data block exactly. This holds whatever the data, the word size, the packet size, the position of a word in the block, and the SIMD configuration of the build.",
  "all data contents, all k-subsets of fragments, word sizes, packet and block sizes, scalar/SSE/AVX builds", TESTS,
  ["src/fec_rs_fnt.h", FB, "src/fec_context.h", "src/fft_2n.h", "src/fec_vectorisation.cpp", "src/property.h"],
  [("encode and mark out-of-range symbols", "src/fec_rs_fnt.h encode, encode_post_process"), ("interpolation of the survivors", FB + " decode_vec/decode_apply"), ("block interface", FB + " encode_blocks_vertical, decode_blocks_vertical")],
  ["decoded buffers", "fragments", "per-fragment marks"])
D("P02", "Systematic Fermat-field code: lost data rebuilt, surviving data untouched",
  "The systematic Fermat-prime code leaves the data blocks as they are, and from any k surviving data or parity blocks it rebuilds every requested lost data block exactly. Surviving blocks and blocks the caller did not ask for are never changed.",
  "all data contents, all k-subsets of the n blocks, any subset of requested blocks, word sizes, packet and block sizes, builds", TESTS,
  ["src/fec_rs_fnt.h", FB, "src/fec_context.h"],
  [("systematic parities by decode then re-encode", "src/fec_rs_fnt.h encode(Buffers)"), ("rebuild", FB + " decode_blocks_vertical, decode_apply")], ["data and parity buffers", "marks"])
GFW = "The tests use a handful of (k, m) and one random erasure pattern per run; they cannot show that every square submatrix / evaluation-point set of the code is invertible for all data."
D("P03", "Vandermonde code over GF(2^n) recovers from every pattern of m losses",
  "For the Vandermonde-matrix code, any k of the k+m fragments determine the data: decoding reproduces every data word for every content and every set of k survivors, and it never fails on such a set.",
  "all data words, all k-subsets, several (k, m), word sizes of one and two bytes", GFW, ["src/fec_rs_gf2n.h", "src/vec_matrix.h", "src/gf_bin_ext.h", FB],
  [("encoding matrix", "src/vec_matrix.h vandermonde_suitable_for_ec"), ("decoding matrix inverse", "src/fec_rs_gf2n.h decode_build, src/vec_matrix.h inv")], ["decoded words"])
D("P04", "Cauchy code over GF(2^n) recovers from every pattern of m losses",
  "For the Cauchy-matrix code, any k of the k+m fragments determine the data: decoding reproduces every data word for every content and every set of k survivors, and it never fails on such a set.",
  "all data words, all k-subsets, several (k, m), word sizes of one and two bytes", GFW, ["src/fec_rs_gf2n.h", "src/vec_matrix.h", "src/gf_bin_ext.h", FB],
  [("encoding matrix", "src/vec_matrix.h cauchy"), ("decoding matrix inverse", "src/fec_rs_gf2n.h decode_build, src/vec_matrix.h inv")], ["decoded words"])
D("P05", "Multiplicative-FFT code over GF(2^n): any k fragments give the data back",
  "For the code that evaluates the data polynomial over GF(2^n) with multiplicative transforms, any k of the fragments reproduce every data word exactly, whatever the data and the survivors.",
  "all data words, all k-subsets, several (k, m), word sizes", GFW, ["src/fec_rs_gf2n_fft.h", "src/fft_ct.h", "src/fft_naive.h", FB, "src/fec_context.h"],
  [("encode", "src/fec_rs_gf2n_fft.h encode"), ("decode", FB + " decode_vec")], ["decoded words"])
D("P06", "Additive-FFT code over GF(2^n): any k fragments give the data back",
  "For the code built on the additive transform over GF(2^n), any k of the fragments reproduce every data word exactly, whatever the data and the survivors.",
  "all data words, all k-subsets, several (k, m), word sizes", GFW, ["src/fec_rs_gf2n_fft_add.h", "src/fft_add.h", FB],
  [("encode", "src/fec_rs_gf2n_fft_add.h encode"), ("additive transform", "src/fft_add.h")], ["decoded words"])
D("P07", "Generic prime-field FFT code: any k fragments give the data back",
  "For the code over a prime field larger than the word range, any k of the fragments with their recorded marks reproduce every data word exactly, including words whose code symbols do not fit a word.",
  "all data words, all k-subsets, several (k, m), word sizes", TESTS, ["src/fec_rs_gfp_fft.h", "src/fft_2n.h", FB],
  [("encode and mark", "src/fec_rs_gfp_fft.h"), ("decode", FB + " decode_vec, decode_prepare")], ["decoded words", "marks"])
D("P08", "Grouped Fermat-field code: any k fragments give the data back",
  "For the code that groups several elements of the field of 65537 elements in one machine word, any k fragments with their marks reproduce every data word and block exactly, including elements that do not fit 16 bits.",
  "all data words, all k-subsets, several (k, m), word and block interfaces", TESTS, ["src/fec_rs_nf4.h", "src/gf_nf4.h", FB],
  [("encode, per-element marks", "src/fec_rs_nf4.h encode, encode_post_process"), ("decode", "src/fec_rs_nf4.h decode_prepare")], ["decoded words", "marks"])
D("P09", "Too few fragments: decoding says no and writes nothing",
  "When fewer than k fragments survive, the block and C decoding interfaces report failure, and no output buffer is modified.",
  "all survivor sets of fewer than k fragments, all data, both systematic and non-systematic codes", "The tests decode only from enough fragments or check one insufficient pattern; the quantifier is over every survivor set.",
  [FB, "src/quadiron_c.cpp"], [("count of available fragments", FB + " decode_blocks_vertical"), ("C entry", "src/quadiron_c.cpp quadiron_fnt32_decode")], ["return value", "output buffers"])
D("P10", "C interface: encode, lose up to m fragments, decode gives the data back",
  "Through the C interface, encoding k data buffers and decoding from any k surviving buffers (each headed by its metadata area) restores all data buffers exactly, unless the marks exceed the documented metadata area and encoding says so. No access goes outside a buffer of the documented size, and parities the caller did not want may be absent.",
  "all data, all survivor sets, word sizes, systematic or not, wanted sets", TESTS + " Sanitizers are not part of the test build.",
  ["src/quadiron_c.cpp", "src/quadiron_c.h", FB, "src/property.cpp"], [("encode + serialise metadata", "src/quadiron_c.cpp quadiron_fnt32_encode"), ("deserialise + decode", "src/quadiron_c.cpp quadiron_fnt32_decode")], ["buffers", "return value"])
D("P11", "C interface: a reconstructed fragment equals the lost one, metadata included",
  "Rebuilding one lost fragment through the C interface from any k survivors yields exactly the bytes the encoder had produced for it, including its metadata, so the rebuilt fragment can take part in any later decode. Surviving fragments are not modified.",
  "all data, all survivor sets and destinations, word sizes, systematic or not", TESTS,
  ["src/quadiron_c.cpp", FB, "src/property.cpp"], [("reconstruct", "src/quadiron_c.cpp quadiron_fnt32_reconstruct")], ["rebuilt buffer", "surviving buffers"])
D("P12", "Fragment metadata survive a round trip, and malformed metadata are refused",
  "Serialising the marks of a fragment into an area and reading it back gives the same marks in the same order, and everything else in the area is cleared. An area that is too small, a wrong magic or a count that does not fit is refused without any access outside the area. Lookups by position and range and sorting agree with the list of marks.",
  "all lists of marks and all area sizes within bounds, all byte contents of the area", "The tests serialise one list; hostile counts (near 2^32) and exact-fit areas are not tried.",
  ["src/property.h", "src/property.cpp", "src/quadiron_c.cpp"], [("fnt_serialize / fnt_deserialize", "src/property.cpp"), ("lookups", "src/property.h")], ["area contents", "return code", "marks"])
FT = "The tests draw random elements; the wrong cases are single elements (0, p-1, values at the top of the word) or single rare combinations a sample of a 16- or 32-bit range does not meet."
D("P13", "Prime fields: the operations, inverses, logarithms and roots are those of Z/p",
  "For every pair of elements, addition, subtraction, multiplication, division, negation, exponentiation, inversion and logarithm in a prime field return the value of Z/p, in range. Orders, primitive roots and n-th roots have exactly the order they claim, and the code length offered for a request is the smallest suitable one.",
  "all elements and pairs of elements, moduli from 3 to above 2^32, word types", FT,
  ["src/gf_base.h", "src/gf_ring.h", "src/gf_prime.h", "src/arith.h"],
  [("operations", "src/gf_ring.h add, sub, mul, neg, inv, exp, log"), ("roots and orders", "src/gf_ring.h get_nth_root, get_order, find_primitive_root")], ["results of field operations"])
D("P14", "Binary extension fields: the operations are those of GF(2^n)",
  "For every pair of elements, operations in GF(2^n) agree with polynomial arithmetic modulo the field's polynomial, for small fields served by tables and for large ones served by carry-less arithmetic and split tables. Inverses, logarithms and roots satisfy their definitions.",
  "all elements, n from 2 to 64, word types", FT, ["src/gf_bin_ext.h", "src/gf_ring.h", "src/gf_base.h"],
  [("multiplication by tables and shifts", "src/gf_bin_ext.h mul"), ("inverse, logarithm", "src/gf_bin_ext.h inv, log")], ["results of field operations"])
D("P15", "Grouped field: every lane behaves as the field of 65537 elements",
  "An operation on grouped elements acts on each lane as the operation of the field of 65537 elements, with no influence between lanes. Packing and unpacking, with the flags of elements equal to 65536, are inverse of each other for every combination of lanes.",
  "all contents of all lanes, 1 to 4 lanes, scalar/AVX builds", "A lane equal to 65536 has probability 2^-16; interactions between such lanes are never sampled.",
  ["src/gf_nf4.h", "src/simd_nf4.h", "src/gf_prime.h"], [("lane operations", "src/gf_nf4.h add, sub, mul, neg, inv"), ("pack and unpack", "src/gf_nf4.h pack, unpack")], ["lanes", "flags"])
D("P16", "Buffer kernels: every build computes the same element-wise results",
  "The kernels that process whole buffers in a prime field (product by a coefficient, sums, differences, negation, products of two buffers) give for each element the result of the field operation, in scalar, SSE and AVX builds alike. This holds for every element value, buffer length, position in a vector and modulus; nothing outside the buffer is touched.",
  "all element values, every position, lengths not multiple of the vector size, moduli with and without a vector kernel, builds", FT,
  ["src/gf_ring.h", "src/gf_prime.h", "src/fft_2n.h", "src/simd_256.h", "src/simd_ring.h", "src/simd_128.h", "src/simd_256.h"],
  [("scalar loops and dispatch", "src/gf_ring.h, src/gf_prime.h, src/gf_ring.cpp"), ("vector kernels and their tails", "src/simd_ring.h, src/simd_256.h")], ["buffer contents"])
FF = "The tests compare fft with ifft on random vectors at a few lengths; the number of declared/actual inputs and the position in the packet are not varied, and a pair of wrong transforms inverse of each other passes."
D("P17", "Radix-2 transforms equal the Fourier transform, whatever the input length",
  "The radix-2 transform over a Fermat field gives exactly the values of the input polynomial at the powers of the root, and its inverse the coefficients, for vectors and for buffers of packets. This includes inputs shorter than the transform, any declared input length, and reuse of the same object; the input is left unchanged.",
  "all input values, input lengths, transform lengths, packet sizes, builds", FF, ["src/fft_2n.h", "src/fft_base.h", "src/gf_ring.h", "src/simd_radix2_fft.h", "src/simd_fnt.h"],
  [("forward and inverse butterflies", "src/fft_2n.h"), ("vectorised butterflies", "src/simd_radix2_fft.h, src/simd_fnt.h")], ["output vectors and buffers"])
D("P18", "Cooley-Tukey, Good-Thomas, naive and small transforms are Fourier transforms",
  "The transforms for composite lengths, the transform by definition and those of sizes 1 and 2 give exactly the values of the input polynomial at the powers of the root, over prime fields and over GF(2^n). Their inverses restore the input, including the division by the length in the right field.",
  "all input values, transform lengths with every kind of factorisation, fields", FF, ["src/fft_ct.h", "src/fft_gt.h", "src/fft_naive.h", "src/fft_2.h", "src/fft_single.h", "src/fft_large.h", "src/fft_base.h"],
  [("recursion over factors and twiddles", "src/fft_ct.h, src/fft_gt.h"), ("division by the length", "src/fft_base.h")], ["output vectors and buffers"])
D("P19", "Additive transforms evaluate on the subspace and their inverse interpolates",
  "The additive transform over GF(2^n) gives the values of the input polynomial at every point of the subspace spanned by the basis, in the documented order, and the inverse transform restores the coefficients. This holds for the default basis and for any basis given, and for inputs shorter than the subspace; the Taylor expansions it is built on are inverse of each other.",
  "all coefficients, subspace dimensions, bases, input lengths", FF, ["src/fft_add.h", "src/vec_vector.h"],
  [("recursive evaluation", "src/fft_add.h _fft, _ifft"), ("Taylor expansion", "src/fft_add.h taylor_expand, inv_taylor_expand")], ["output vectors"])
D("P20", "Integer helpers return what they are named for",
  "Square roots, powers of two, greatest common divisors with their coefficients, modular powers, Jacobi symbols, factorisations, divisors, code lengths and Chinese remainders satisfy their definitions for every argument. No intermediate overflow is visible in a result.",
  "all arguments within bounds, word types", "The tests check random arguments against the same library or a few constants; boundary arguments (1, perfect squares, moduli above half the range) are single values.",
  ["src/arith.h"], [("integer arithmetic", "src/arith.h")], ["results"])
D("P21", "Vectors, slices and buffer lists touch exactly the elements they stand for",
  "Arithmetic, copies, slices, views, zero extensions, concatenations and shuffles of vectors and lists of buffers give exactly the elements of their definition, share or own memory as documented, and leave everything else unchanged. Packing words into elements and unpacking them again are inverse of each other for every word size.",
  "all element values, offsets, lengths, permutations within bounds; word types", "The tests use a few lengths and compare with hand-written lists; a row pointer that is off by one at one offset, or a row beyond the end, is not seen.",
  ["src/vec_vector.h", "src/vec_slice.h", "src/vec_view.h", "src/vec_zero_ext.h", "src/vec_buffers.h", "src/vec_cast.h"],
  [("vectors", "src/vec_vector.h"), ("lists of buffers", "src/vec_buffers.h"), ("packing", "src/vec_cast.h pack, unpack")], ["elements", "memory next to them"])
D("P22", "Polynomials and matrices over a field obey their definitions",
  "Evaluation, derivative, products and multiplication by X+c of polynomials, and the product of a matrix with a vector, are those of the field's arithmetic for all coefficients. Inverting a matrix gives its inverse, and exactly the singular ones are refused, unchanged.",
  "all coefficients and entries, degrees and sizes within bounds, prime and binary fields", "The tests use fixed small polynomials and random matrices, which are regular with probability 1-1/p and have no zero pivot.",
  ["src/vec_poly.h", "src/vec_matrix.h"], [("polynomial operations", "src/vec_poly.h"), ("Gauss elimination with pivoting", "src/vec_matrix.h inv")], ["coefficients", "entries", "exceptions"])
D("P23", "Streams encoded by any code come back from any k fragments",
  "Data streams encoded through the stream interfaces are restored byte for byte from any k fragment streams and their marks, including streams that end in the middle of a packet or exactly at its end. Decoding may use another packet size, writes only the streams that are asked for, and refuses when too few fragments are given.",
  "all data contents, all k-subsets of fragments, stream lengths, packet sizes, word-wise and packet-wise interfaces, every code", TESTS + " The last partial packet and the marks inside it are met by chance only.",
  [FB, "src/fec_rs_fnt.h", "src/fec_rs_nf4.h", "src/fec_rs_gf2n.h", "src/fec_rs_gf2n_fft.h", "src/fec_rs_gf2n_fft_add.h", "src/fec_rs_gfp_fft.h"],
  [("word-wise loops", FB + " encode_streams_horizontal, decode_streams_horizontal"), ("packet loops", FB + " encode_streams_vertical, decode_streams_vertical")], ["output streams", "return value"])
D("P24", "Fragments and marks do not depend on the packet size or the interface",
  "For the same data and code parameters, the bytes of every fragment and the list of its marks are the same whatever the packet size, and whether streams are encoded word by word or packet by packet, or blocks are encoded in memory. Encoder and decoder may therefore be configured differently.",
  "all data contents, packet sizes, lengths, interfaces, builds", "No test compares two packet sizes or two interfaces with each other; each is only tested against its own decoder.",
  [FB, "src/fec_rs_fnt.h", "src/fec_rs_nf4.h", "src/vec_cast.h"], [("interfaces of the encoder", FB + " encode_streams_horizontal, encode_streams_vertical, encode_blocks_vertical"), ("marks with their position", "src/fec_rs_fnt.h, src/fec_rs_nf4.h encode_post_process")], ["fragments", "marks"])
D("P25", "Marks of any kind, place or order never lead the decoder astray",
  "A decoder given fragments whose marks lie at any location, of any kind, repeated, or out of order, never reads or writes outside the buffers, never aborts, and leaves the surviving fragments unchanged. When the marks are the encoder's own in another order, the decoded data are still exact.",
  "all locations and kinds of added marks, all metadata headers, orders of marks", "The tests decode only marks made by the encoder in the same process.",
  [FB, "src/fec_rs_nf4.h", "src/property.h", "src/quadiron_c.cpp"], [("applying marks to a packet", FB + " decode_prepare(Buffers)"), ("per-element marks of grouped words", "src/fec_rs_nf4.h decode_prepare"), ("metadata of the C interface", "src/quadiron_c.cpp")], ["buffers", "marks", "return value"])
D("P26", "A code object may be used again: results do not depend on what it did before",
  "After any encoding, decoding or refused decoding, through any interface, an object encodes and decodes exactly as a new one does. Marks, decoding matrices and intermediate buffers of earlier calls never show in later results.",
  "all short histories of calls, survivor sets before and after, data contents", "Tests build a new object per case or reuse it for the same operation; leftovers matter only when the earlier call had other survivors, other lengths or marks.",
  [FB, "src/fec_rs_fnt.h", "src/fec_rs_gf2n.h", "src/fec_context.h"], [("state kept between calls", "src/fec_rs_fnt.h inter_words, suffix_words; src/fec_rs_gf2n.h decode_mat; " + FB + " dec_inter_codeword")], ["fragments", "decoded data"])
D("P27", "The text form of the marks is read back as it was written",
  "Writing the marks of a fragment as text and reading the text gives the same marks in the same order, for every location and kind of their types, with comments and blank lines ignored. Numbers of 128 bits are printed with their exact decimal digits and sign.",
  "all lists of marks and numbers within the bounds, placements of comments and blank lines", "No test reads what was written; numbers above 32 bits or at the ends of their types are never used.",
  ["src/property.cpp", "src/misc.cpp", "src/misc.h"], [("writer and parser of marks", "src/property.cpp operator<<, operator>>"), ("decimal output of 128-bit integers", "src/misc.cpp operator<<")], ["text", "marks"])
D("P28", "Codes as large as their field allows work, and larger ones are refused",
  "For every number of data and parity fragments up to what the field of the code has room for, from one fragment of each kind to the whole field, any k fragments restore the data. Sizes and word sizes that the field cannot serve are refused when the code is built.",
  "all data words within the bounds, the largest and smallest sizes of every code", "The tests use codes of at most a few dozen fragments over larger fields, one size per code; what is special about the last size that fits is never built.",
  ["src/fec_base.h", "src/fec_context.h", "src/fec_rs_fnt.h", "src/fec_rs_gf2n.h", "src/fec_rs_gf2n_fft.h", "src/fec_rs_gf2n_fft_add.h", "src/fec_rs_gfp_fft.h", "src/fec_rs_nf4.h", "src/vec_matrix.h"], [("choice of lengths and parameter checks", "init_fft / check_params of every code"), ("decoding context", "src/fec_context.h")], ["decoded data", "refusal"])
