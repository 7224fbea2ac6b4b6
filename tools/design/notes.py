# How each property is specified and decided: the oracle and what is symbolic. Bounds come from specs.py.
N = {
"A01": "Two operands with all elements symbolic, each a view of a parent with its own layout (dense, offset, strided, nested slice, row and column views), over broadcastable and incompatible shape pairs. Oracle: element (i,j,..) of the result is `a[i..] op b[i..]` with size-1 axes repeated; operands and the parents outside the views are compared with copies of their terms; incompatible pairs must throw. Memory checks cover reads outside the operands.",
"A02": "As A01 with one scalar, symbolic, on either side and of the instantiated scalar types. Oracle: the operation in the written order on each element.",
"A03": "All comparison operators and bitwise-and, array-scalar, scalar-array and array-array, result type uint8 checked to be exactly 0 or 1 by the solver against the comparison of the terms. One entry (`e_nan`) is bit-precise over every float including NaN and infinities.",
"A04": "Start, end and stride are symbolic 64-bit integers: the oracle computes the selected positions from Python's slice rule over integers, and the solver compares length and every element address. Writes through slices compare every element of the parent.",
"A05": "copy/square/sqrt/abs into new arrays and into given destination views; destination parents are compared outside the view; sharing is checked by writing to the result.",
"A06": "The row-major sequence of terms before equals that after, for any layout; where the requested shape needs a copy an exception is accepted, but no other result. Other handles of the same data keep shape, strides and offsets.",
"A07": "For every subset of axes in either order: oracle sums the terms of each group; deviation is compared by its square (non-negative root), maximum by being >= every term and equal to one.",
"A08": "As A07 with a symbolic mask byte per element; groups are the elements with mask 0. Rejections (shape, type, no element left) are asserted to throw.",
"A09": "Symbolic start, end, step and fill value, lengths enumerated; the element type's conversion is written out in the oracle.",
"A10": "Histories of conversions/copies/assignments of a deferred array with a counting source: result terms and evaluation counts are compared with a model per policy.",
"A11": "Operation histories over three handles and two buffers, with a shadow model of which buffer positions each handle denotes; after each step every handle's elements are compared and after the last release the number of live heap objects must be what it was.",
"A12": "Names are symbolic byte strings of each length: the parse must succeed exactly for the listed names (oracle: table) and give that type; device numbers are symbolic digits. Equality of types and devices is compared field by field on symbolic fields.",
"A13": "File streams run against an in-memory disk; the bytes written are compared with the element terms, reads use files of symbolic bytes, and failure points (cannot open, disk full after n bytes) are enumerated.",
"A14": "The library transform is replaced by any half-complex output; entry i must be the squared magnitude of frequency i - floor(n/2). One entry uses the exact transform of four symbolic samples.",
"A15": "Moments are compared after clearing denominators (moment * variance^(k/2) products) to stay polynomial; medians: solver shows that the result is the order statistic (as many elements below as above) of symbolic elements.",
"D01": "Range and step of rates, channel width and sampling time; oracle: number of entries, uniform steps, and slope/span/rate/smearing relations from physics (one channel per unit drift span).",
"D02": "Symbolic spectrogram; oracle sums the samples at round(slope*t)+smear and divides. Tracks leaving the band are only checked for memory safety.",
"D03": "Symbolic flag bytes on one or two samples over backgrounds; counts compared per track; saturation at 255 in an entry with 290 spectra.",
"D04": "Both back ends on the same symbolic spectrogram and mask; results compared everywhere they are both defined.",
"D05": "Symbolic plane and threshold; oracle is a reachability closure over cells above half threshold within the L1 distance, evaluated as terms: each reported component must be such a group, each group reported once, and the peak be its largest term.",
"D06": "Symbolic plane; oracle: comparison of each cell with all neighbours within the distance.",
"D07": "Symbolic metadata; each hit field is compared with its formula; uninitialised fields are found by the engine.",
"D08": "Symbolic fields of hits and options enumerated; oracle is a filter in order.",
"D09": "Symbolic hit frequencies; oracle replays the documented greedy matching with real arithmetic; ambiguous distances are excluded by stated margins.",
"D10": "Symbolic fields: reflexive, symmetric, transitive, irreflexive, asymmetric, consistent; state round trip bit-precise.",
"C01": "Scans over a model HDF5 file with symbolic contents and metadata; channel i's data terms are the file's cells and its first frequency fch1 + i*n*foff; index symbolic over all 32-bit values.",
"C02": "Slice start and count symbolic over 64 bits; the slice is compared channel by channel with the original.",
"C03": "Number of channels symbolic up to 2^40 in chosen classes; oracle is the rule in the statement over integers.",
"C04": "Each processing step applied to a scan/target/cadence is compared with the step applied to the coarse channel; transforms record their calls.",
"C05": "Symbolic frequencies/widths per scan; summary equals all scans' values or throws; differing scans at each position.",
"C06": "Symbolic frequency; the returned channel must contain it (oracle by inequalities), frequencies outside must throw.",
"F01": "Symbolic prior mask bytes and data; after each flagger the other bits equal the prior bits, own bit equals its criterion; applied twice.",
"F02": "Symbolic fraction; oracle round(n*fraction) channels at both edges.",
"F03": "Symbolic powers and thresholds; the estimator's inequality is written without division.",
"F04": "Symbolic samples; sigma clipping compared with the iteration written in the harness over terms (data mean/deviation of unmarked samples).",
"E01": "Symbolic data and masks; mean and squared deviation over unflagged samples.",
"E02": "Symbolic data and response; product of result and divisor equals the sample.",
"E03": "The transform's power is arbitrary at any one frequency; folding and normalisation compared with a sum over congruent frequencies.",
"S01": "Real Cap'n Proto library on in-memory files; every field symbolic (bit-precise); cuts at every word, failures of open/stat/read/write.",
"S02": "As S01 for channels, scans, targets and cadences.",
"S03": "Symbolic extents and channel counts with every label assignment to axes; oracle from the statement.",
"S04": "Model dataset with symbolic cells; offsets and counts symbolic; result cells equal the dataset's.",
"S05": "Stored type, byte order and value of each attribute symbolic/enumerated; value equals what was stored.",
"S06": "The fmt model keeps each number as a term with its format specification; lines are parsed back into columns and compared with the hit's fields; text of header fields and sexagesimal positions compared; write faults enumerated.",
"K01": "main of bliss_find_hits executed with stand-ins for the pipeline steps that record their arguments; option values symbolic through the strtod/strtoll model; each reaches exactly its step; order and number of calls compared; output names and failure status.",
"K02": "main of the two other programs, same technique.",
}
