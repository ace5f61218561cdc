"""What each check runs: builds, case counts per tier, and how its cases are made and counted."""
SAN = '-fsanitize=address,undefined -fno-sanitize=pointer-overflow,alignment,nonnull-attribute,null -fno-sanitize-recover=undefined -fno-omit-frame-pointer'.split()
FLAGS = {
    'plain': ('g++', ['-O2'], []),
    'asan': ('g++', ['-O1'] + SAN, []),
    'tsan': ('g++', ['-O1', '-fsanitize=thread'], []),
    'vg': ('g++', ['-O1'], ['-DVERIF_NO_ALLOC']),
}
TITLE_LEVEL = 'exploration'
VALGRIND = ['valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes', '--num-callers=8']
def S(variant, total, **k): return dict(variant=variant, total=total, **k)
PLAN = {}
def both(p, q, t): PLAN[p] = {'quick': q, 'thorough': [dict(s, deadline=s.get('deadline', 780)) for s in t]}
for i in list(range(1, 17)):
    both('C%02d' % i, [S('plain', {1: 50000, 2: 50000, 3: 12000, 4: 50000, 5: 45000, 6: 45000, 10: 50000, 12: 50000, 13: 40000, 14: 26000, 15: 26000, 16: 45000}.get(i, 34000))], [S('plain', 240000)])
both('C17', [S('plain', 18000), S('asan', 4000)], [S('plain', 200000), S('asan', 60000)])
both('C18', [S('plain', 16000), S('asan', 3000)], [S('plain', 40000), S('asan', 10000)])
both('C19', [S('asan', 6000), S('vg', 160, prefix=VALGRIND, args=['--slow'], cpu=120)], [S('asan', 100000), S('vg', 2400, prefix=VALGRIND, args=['--slow'], cpu=200)])
both('C20', [S('plain', 10000, scratch=True)], [S('plain', 60000, scratch=True)])
both('C21', [S('plain', 1200), S('tsan', 160, cpu=200)], [S('plain', 16000), S('tsan', 2400, cpu=200)])
both('C22', [S('plain', 18000)], [S('plain', 100000)])
PLAN['C23'] = {'quick': [], 'thorough': []}
both('C24', [S('plain', 12000)], [S('plain', 100000)])

_F = 'Each case draws, from the seed, a shape (single rows/columns, tiny, whole and partial blocks, thin, about 1% arrays of 8 thousand to 900 thousand values), a field family (smooth, noise, constant, steps, spikes, wide range, masked, integers, offset, ...), an element type and bounds from far below to far above the data, runs the real compressor and decompressor, and judges every value. '
_B = _F + 'Non-trivial: at least one value came back different from the original (so the bound was exercised) and every value was judged. Distinct: hash of the decompressed values.'
_CP = 'Each case draws a shape, a vector field (waves, noise, planted saddles/nodes/foci, vortices, anisotropic, magnitude-varying, blocky; one in five with zeroed vectors) and a bound, runs the real codec both ways and classifies every cell of the original and the decompressed field with an independent long-double extractor; cells within rounding error of changing their answer are counted as unclear and not judged. Non-trivial: cells were judged and at least one of them changed its values. Distinct: hash of the decompressed field.'
_A = ['finite inputs; array elements are zero or normal numbers', 'the reconstruction may exceed the bound by one part in a million and by the rounding of the element type']
_AL = _A + ['logarithmic codecs may add |log2 x| rounding errors of the element type']
_AC = ['cells whose sign decisions lie within the rounding error of the element type are not judged']
RULE = {
    'C01': (_B, _A), 'C02': (_B, _A), 'C03': (_B, _A), 'C04': (_B, _AL), 'C05': (_B, _AL), 'C06': (_B, _A), 'C07': (_B, _A), 'C08': (_B, _A), 'C09': (_B, _AL), 'C14': (_B, _AL),
    'C10': (_CP, _AC), 'C11': (_CP, _AC), 'C12': (_CP, _AC), 'C13': (_CP.replace('cells were judged and at least one of them changed its values', 'at least one cell was judged'), _AC), 'C15': (_CP, _AC),
    'C16': ('Each case draws a tetrahedral mesh (box splits into 5 or 6 tetrahedra, shuffled vertex numbers, unused vertices, random vertex tuples), a field, an element type and a bound; every component and, for fields in general position, every tetrahedron is judged. Non-trivial: some value changed, or tetrahedra were judged and changed. Distinct: hash of the decompressed field.', _AL + _AC),
    'C17': ('Each case draws a symbol sequence (alphabet size, number of distinct symbols, distribution, length), flags, coefficients or quantizer contents, encodes it between guard bytes and decodes it with trailing bytes behind it; the monitor compares symbols, bytes consumed, and guard and trailing bytes. Non-trivial: something was encoded and compared. Distinct: hash of the encoded bytes. The same cases run under AddressSanitizer and UBSan.', ['symbols below the declared alphabet size']),
    'C18': ('Each case draws a byte string (empty to megabytes; random, text-like, runs, zeros, real codec output) and a level, and compares bytes and length after the round trip, the head of 65536 bytes and the recorded kind. Non-trivial: the bytes were compared. Distinct: hash of the compressed bytes. The same cases run under AddressSanitizer and UBSan.', ['only the ZSTD backend is built']),
    'C19': ('Each case runs one of the 18 codecs both ways on hostile data (extreme, denormal and huge values, all-equal, all-unpredictable, degenerate shapes, extreme bounds and block sizes) or the packers, with AddressSanitizer and UBSan as the judge, and a slice of small cases under valgrind memcheck, which also judges uninitialised values. Non-trivial: the codec produced a blob and decoded it. Distinct: hash of what came out.', ['finite inputs', 'pointer-overflow, alignment and null-argument checks of UBSan are off: the code reads unaligned words by design on this platform']),
    'C20': ('Each case compresses a field, copies exactly the reported number of bytes to the end of a page followed by an inaccessible page, to other addresses and alignments, and to a file read by another process, decompresses each copy and compares with the original buffer; input arrays are compared with a copy. Non-trivial: at least one copy was decoded and compared. Distinct: hash of the blob.', ['decoding in another process uses the same build']),
    'C21': ('Sequential cases compress and decompress the same problem with different heap contents (patterns written into every allocation), after different earlier calls, and compare bytes; threaded cases run four threads on separate data with random delays and compare with the sequential answer; the ThreadSanitizer build watches the threaded cases for races. Non-trivial: at least two runs were compared. Distinct: hash of the output (per build).', ['ThreadSanitizer reports races between accesses that were executed']),
    'C22': ('Each case wraps malloc/free/new/delete, runs a codec repeatedly both ways, releases what was handed back and counts what is still allocated by library code. Non-trivial: allocations of the library were seen and balanced. Distinct: hash of blob and counts.', ['memory the C and C++ runtime and ZSTD keep for the process is not counted']),
    'C23': ('Each run gives one program random files and arguments in a scratch directory and judges exit status, input files, files written (size, every value against its bound) and printed numbers, recomputed from the files. Non-trivial: everything was judged. Distinct: hash of output without timing lines and of the written files.', ['programs using quantized bounds are given at least 1000 values except for a slice in which the recorded finding shows']),
    'C24': ('A quarter of the cases each: five smooth fields per codec, under a loose and under a tight bound, whose median size after the lossless stage is compared with a codec-specific fraction; any field of the whole workload against raw size plus code table; noise against 1.2 times the raw size. Non-trivial: a size was judged. Distinct: hash of the sizes and blob.', ['smooth fractions were calibrated at 1.3 times the worst seen on this tree']),
}
