import json
A={"common":[
"size_t is 64 bit; containers hold at most 2^63-1 elements (axiom vec_max), lengths are otherwise unbounded",
"allocation does not fail; no other thread writes the arguments; OpenMP pragmas are dropped (loop bodies are verified as sequential code)",
"two references passed to one call do not alias unless the translator emitted an explicit self-alias variant or a disjointness obligation",
"linear algebra is verified for an abstract field F: only the field axioms (and that F(-1) is the negative of one) are used; ModP discharges them in P01",
"double-valued filtrations are verified over an ordered value type without NaN (values instantiated as 32-bit integers, infinity an abstract constant)",
"std::sort, std::stable_sort, std::gcd, std::lower_bound and the std::vector/std::map/std::set operations are modelled by their C++ standard meaning (map operator[] inserts a default)",
"stream output, timers and asserts-for-logging are dropped by the extraction (listed per function under extraction_notes)",
"the translation clang AST -> Verus (extract/) is trusted; it refuses what it does not know rather than guessing",
"the replay of the contracts on the compiled code is bounded and is never counted as proved"],
"P01":["ModP is instantiated at P=3 with P kept symbolic in the generated text: every prime P <= 46341, so that products fit in int"],
"P02":["Rational<int>: each machine product and sum is in range (precondition, as the property says); std::gcd is trusted"],
"P03":["scale_inplace with a coefficient list documents nonzero coefficients; axpy with an index list requires every index of x to be listed"],
"P05":["input matrices hold canonical columns (strictly increasing indices, nonzero values, indices below the row count)"],
"P06":["input matrices hold canonical columns"],
"P07":["LEUP_inplace/LQU_inplace and relatives: L, U, P are identities on entry (what every caller passes)","inv: a right inverse exists","dense factorizations (ADense) are only in the bounded replay"],
"P08":["the extra reduction requires fewer than 2^64-1 rows","reduce_block_dq, sparsify_basis, remove_extra_cycles and the parallel reduction are only in the bounded replay"],
"P09":["chain and cochain complexes (all reduction, clearing, compression and basis options) and DG vector spaces of degree -1 and +1 are proved","that the boundary of the DG space built from a cell complex is its (reversed, transposed) boundary is replayed; the equality of pairs and Betti numbers is proved from that relation"],
"P11":["building chain maps from simplicial, cubical or cellular maps, and functoriality end to end, are only in the bounded replay; the induced map is proved"],
"P12":["filtered cochain complexes are only in the bounded replay; 'number of pairs alive equals Betti' is replayed"],
"P13":["rips_union_find_pairs is only in the bounded replay"],
"P14":["perm_inversions: lists shorter than 2^32","Kendall tau, top-k variants, set_union/set_intersection and simplex signs are only in the bounded replay"],
"P15":["constructors assume distinct rows within a column; 32-bit index arithmetic in range"],
"P16":["SparseTrie is assumed to behave as a map from key sequences to values (trusted model contracts/cpx.rs); its own nested hash maps are only replayed","cubical and light simplicial complexes, add_recursive, files (save/load) and copies are only in the bounded replay","SimplicialComplex is verified at its own index type; the number of cells per dimension stays below 2^31 (the boundary values are int)"],
"P17":["the distance is symmetric and non-negative; values are instantiated as 32-bit integers; matrix versions need at most 2^31 points; maxdim is below the largest size_t","SparseTrie is assumed to behave as a map (see P16)","witness complexes, landmarks and covers (where not extracted) are only in the bounded replay"],
"P18":["SparseTrie is assumed to behave as a map (see P16)","general updates with added or deleted cells are outside the contracts"],
"P19":["quiver: at least one edge, edge k joins nodes k and k+1 and has conforming dimensions (dgok)","divide and conquer, zigzag barcodes, extract_dimension are only in the bounded replay"],
"P20":["extract_pairs and zigzag pairs: bounded replay"]}
json.dump(A,open('/verif/assumptions.json','w'),indent=1)
T="Every obligation generated from the current /repo sources is discharged by Verus/Z3 for all inputs; "
N={
"P01":("proof",T+"contracts on ModP and Z/2. Replay on compiled code as counterexample search."),
"P02":("proof",T+"contracts on Rational<int>; 64-bit instantiation replayed only. Assumes machine products in range and std::gcd."),
"P03":("proof",T+"contracts on SparseVector arithmetic over an abstract field."),
"P04":("proof",T+"contracts on SparseVector edits; insert/erase variants not listed in CONTRACTS.md are replayed only."),
"P05":("proof",T+"contracts on ColumnMatrix algebra and triangular solves."),
"P06":("proof",T+"contracts on structural edits and shape tests."),
"P07":("proof",T+"contracts: sparse LEUP/PLEU/UELP/PUEL/LQU/UQL, products, inverse, EL/EU commutation. Dense factorizations: bounded replay only."),
"P08":("proof",T+"contracts: standard, extra, clearing, compression, with and without basis. Block divide-and-conquer, parallel reduction, sparsify_basis, remove_extra_cycles: bounded replay only."),
"P09":("proof",T+"contracts: every constructor of the reduced (filtered) chain complex and DG vector space reduces the same boundary to the same pivots and Betti numbers; homology and cohomology agree; cochain complexes too."),
"P10":("proof",T+"contracts for chain complexes, cochain complexes and DG vector spaces."),
"P11":("exploration","the induced map is proved (its columns are the class coordinates of the image cycles); chain maps from cell maps and functoriality end to end are bounded replay."),
"P12":("proof",T+"contracts for filtered chain complexes and filtered DG spaces: pairs, values and original indices. Cochain version and alive-pairs-equal-Betti: bounded replay only."),
"P13":("proof",T+"union_find_pairs returns exactly the pairs of any reduction of the same filtration; find_parent. Rips variant: bounded replay only."),
"P14":("proof",T+"contracts. Kendall tau, top-k, set union/intersection, simplex signs: bounded replay only."),
"P15":("proof",T+"contracts on CSCMatrix."),
"P16":("proof",T+"SimplicialComplex add/look-up/boundary/union/intersection keep closure, index consistency and signed faces, the double boundary is zero for every reachable complex; is_valid_complex, subcomplex, relative_complex. SparseTrie is assumed as a map; cubical and light complexes, add_recursive, files: bounded replay only."),
"P17":("proof",T+"flag complexes hold exactly the cliques up to the dimension bound, each once, at the diameter; Rips and clique enumeration over any symmetric distance. SparseTrie is assumed as a map."),
"P18":("proof",T+"contracts: sort permutations, permuting the complex, repairing the reduction, update_filtration equals recomputation. Filtration, sublevel sets proved (SparseTrie assumed as a map)."),
"P19":("proof",T+"contracts: both sequential sweeps and barcode extraction give an interval decomposition of the representation. Divide and conquer and zigzag: bounded replay only."),
"P20":("proof",T+"barcode and pair equality. extract_pairs and zigzag pairs: bounded replay only.")}
json.dump(dict(claimed={k:list(v) for k,v in N.items()},not_applicable={}),open('/verif/tools/levels.json','w'),indent=1)
