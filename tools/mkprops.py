import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
F='phlite/src/fields.rs';C='phlite/src/columns.rs';M='phlite/src/matrices/mod.rs';A='phlite/src/matrices/adaptors.rs';CO='phlite/src/matrices/combinators.rs';I='phlite/src/matrices/implementors.rs'
S='phlite/src/reduction/standard.rs';K='phlite/src/reduction/clearing.rs';R='phlite_rips/src/lib.rs';RH='phlite_rips/src/homology.rs';RC='phlite_rips/src/cohomology.rs';RM='phlite_rips/src/main.rs'
G='phlite_grpph/src/lib.rs';GB='phlite_grpph/src/boundary.rs';GC='phlite_grpph/src/coboundary.rs'
p('C01','Coefficient types compute exactly in their field',
 "Every supported coefficient type (the integers mod 2, 3, 5, 7, 11, 13 and the rationals) behaves as the set of non-zero elements of that field: sums, products, additive inverses, multiplicative inverses and the unit are exact. A sum is absent exactly when the true sum is zero, adding an absent term changes nothing, and two values compare equal exactly when they denote the same field element. For the rationals this holds whenever the result, written over the common denominator, fits the machine integers.",
 ['inputs','histories'],'all pairs of non-zero elements of every supported finite field; all sequences of additions, products, negations and inversions of rationals whose results are representable',
 'The tests check Z2 and a few sums/products of Z3; no test touches an inverse, mod 5..13 or the rationals, and a wrong table entry only shows as a wrong reduction over that field.',
 [F],[('modular add/mul, inverse tables, rational normalisation',F)],['return values of +, *, additive_inverse, mult_inverse, one, =='])
p('C02','Column heap: pivots are leading non-zero terms of the formal sum',
 "A column heap represents the formal sum of all entries ever added minus what was extracted: extracting the pivot yields the term with the greatest (filtration value, row index) whose total coefficient is non-zero, with that total coefficient, and removes exactly that row and any greater, cancelled rows. Draining yields strictly decreasing rows with non-zero totals until the sum is exhausted (stopping early leaves the rest intact), copying the pivot does not change the represented sum, and right after copying the pivot a peek shows that same term. This holds in every interleaving of additions, scalings, extractions, copies and drains.",
 ['histories','inputs'],'all sequences of heap operations over any coefficient field, any filtration values and row types, with repeated and cancelling rows',
 'One unit test performs a handful of additions and pops over Z2; cancellation chains, multi-coefficient sums and interleavings of pops/clones/additions are unbounded.',
 [C],[('coalescing loop of pop_pivot, clone_pivot push-back, entry ordering',C)],['results of add_*/pop_pivot/clone_pivot/peek_pivot/drain_sorted/to_sorted_vec and entry scaling'],
 [dict(name='heap',meaning='multiset of (filtration, row, coefficient) terms',where=C)])
p('C03','Products, sums and consolidation denote exact matrix algebra',
 "For any matrices with matching index types, every column of a product, of a sum and of a consolidated matrix denotes exactly the product, sum and original column (as linear combinations, cancellations included), however deeply these are nested. A consolidated column lists each row at most once, never with a zero total, in strictly decreasing row order; comparing two matrices on a column answers yes exactly when the two linear combinations are equal. A product keeps the left row filtration and the right column basis.",
 ['inputs','programs'],'all finite matrices over all supported fields, all nestings of the combinators, all columns',
 'Two fixed Z2 products are tested; coefficients other than 1, repeated rows, nested combinators and the filtered column path are never exercised.',
 [CO,A,M],[('flat-mapped column product, chained sum, consolidating heap, equality by drained heaps',CO)],['column(), column_with_filtration(), build_bhcol(), basis(), eq_on_col()'])
p('C04','Adaptors change only what they document',
 "Attaching a basis, a filtration or the trivial filtration, restricting to the sub-basis of a dimension, indexing columns by basis position, and borrowing or wrapping a matrix in a smart pointer never change the linear combination denoted by a column. They expose exactly the documented filtration values and basis elements (in order, with inverse lookup), and in every such view the filtered column lists the same terms as the plain column, each with the filtration value of its row. Stored matrices return the entries they were built from.",
 ['inputs','programs'],'all matrices, bases, filtrations and all compositions of adaptors',
 'Adaptors are only used incidentally in tests on one fixed Z2 matrix; forwarding of filtered columns, sub-bases and index lookup is never compared with the wrapped matrix.',
 [A,M,I],[('forwarding implementations of column/filtration/basis',A),('default filtered column and heap building',M),('stored matrices and standard basis',I)],['column(), column_with_filtration(), filtration_value(), basis().element/size/in_dimension, construct_reverse_lookup()'])
p('C05','Column caching is transparent and computes each column once',
 "A column-cached matrix returns for every request exactly the entries of the underlying column, in any history of requests, including requests made while iterators over other (or the same) cached columns are still alive, as happens when it is multiplied with itself or reduced. The underlying matrix is asked for each column at most once. Filtration values and basis are those of the underlying matrix.",
 ['histories','inputs'],'all interleavings of opening, advancing and dropping column iterators on a cached matrix, and all uses of cached matrices inside products and reductions',
 'The repository states it has no test for the column cacher; the failing histories need overlapping iterators.',
 [A],[('interior-mutable column cache',A)],['items yielded by overlapping column iterators; calls observed by the wrapped matrix'],
 [dict(name='cache',meaning='columns already computed',where=A)])
p('C06','Reversal is an exact order-reversing involution',
 "Reversing a matrix keeps every coefficient and reverses the order of rows, columns, filtration values and basis (total and per dimension): position i of the reversed basis is position size-1-i of the original. Un-reversing restores the original matrix, filtration, filtered columns and basis exactly, and reversing twice gives the original order. The pivot of a reversed column is the least non-zero term of the original column.",
 ['inputs','programs'],'all matrices, filtrations, (split) bases and nestings of reversal with other adaptors',
 'One test checks a 3-element basis and prints columns without asserting; filtered columns, per-dimension reversed bases and nested reversals are untested.',
 [A,M],[('reverse/unreverse wrappers over matrix, filtration, basis and pointer casts for basis references',A)],['columns, filtered columns, basis elements and pivots through reversed/unreversed views'])
p('C07','Standard reduction yields a valid R = DV decomposition',
 "For every finite square filtered matrix over every supported field, the standard algorithm terminates and returns a matrix V such that each column of V has a non-zero entry at its own index and otherwise only indices of earlier basis columns, and the non-zero columns of R = DV have pairwise distinct pivots. Every basis column has a column in V; the input need not be a boundary matrix.",
 ['inputs','configurations'],'all square matrices, fields, filtrations (with ties), column bases (including sub-bases and empty ones) and index types',
 'One 8-column Z2 example is checked; nothing covers other fields, ties, sub-bases, or long reduction chains.',
 [S],[('pivot elimination loop and low-inverse table',S)],['columns of the returned reduction matrix, product with the input'])
p('C08','Standard diagram is the unique persistence pairing',
 "The diagram returned with the standard reduction pairs a row with a column exactly when the row is the pivot of that reduced column, and lists as essential exactly the basis columns that reduce to zero and are in no pair as a birth. For a filtered chain complex this is the persistence pairing determined by ranks, so every basis element occurs exactly once, whatever order the basis lists the dimensions in and for either setting of the order flag.",
 ['inputs','configurations'],'all filtered (co)chain complexes over all supported fields, all compatible basis orders, both order flags',
 'Tests only count pairs of one fixed square; they cannot tell a wrong pairing with the right cardinality nor a flag-dependent essential class.',
 [S,'phlite/src/reduction/mod.rs'],[('reading pivots of R and separating essential columns',S)],['returned diagram: essential set and pair set'])
p('C09','Clearing reduction yields a valid R = DV decomposition',
 "For every graded filtered (co)chain complex over every supported field, reduced in the documented dimension order, the clearing algorithm terminates and returns a matrix V defined on every basis column of the reduced dimensions, with a non-zero entry at each column's own index and otherwise only earlier columns, such that the non-zero columns of R = DV have pairwise distinct pivots; the columns of R indexed by births of pairs vanish. Asking whether a column is a cycle answers yes exactly when its column in R is zero.",
 ['inputs','configurations'],'all graded complexes, fields, filtrations with ties, dimension ranges, both boundary (descending) and coboundary (ascending) orders',
 'The clearing test only counts 6 pairs and 1 essential class of one Z2 example; neither V nor the cycle query is asserted anywhere.',
 [K],[('per-dimension reduction, cleared columns represented by R of their death',K)],['columns of the returned reduction matrix, col_is_cycle()'])
p('C10','Clearing and standard algorithms produce the same diagram',
 "For every graded filtered (co)chain complex over every supported field, the clearing algorithm run in the documented dimension order returns the same pairs and the same essential elements as the standard algorithm on the same columns, namely the unique pairing determined by ranks. Restricting to a contiguous range of dimensions changes nothing about the pairs of the reduced dimensions.",
 ['inputs','configurations'],'all graded complexes, fields, tie patterns, contiguous dimension ranges, boundary and coboundary direction',
 'No test compares the two algorithms; agreement must hold for every complex.',
 [K,S],[('clearing births when a pivot is saved, skipping cleared columns',K)],['diagrams of both algorithms on the same input'])
p('C11','Matrices are only asked for columns they are meant to provide',
 "While reducing, only columns belonging to the attached basis are ever requested from the user's matrix, and the clearing algorithm never requests the column of an element that it reports as the birth of a pair. Filtration values are only requested for rows that occur in requested columns, and building a product, sum, adaptor or cache requests no column until one is asked for.",
 ['inputs','histories'],'all complexes and matrices, every oracle call made during construction and reduction',
 'Oracle calls are not observed by any test; several shipped matrices panic when asked for a column or filtration value outside their domain, so this decides whether reductions can crash.',
 [K,S,CO,A],[('skip of cleared columns, sub-basis iteration, lazy combinators',K)],['sequence of column/filtration requests received by a user matrix'])
p('C12','Rips simplices: faithful indices and complete sorted bases',
 "Encoding a non-empty vertex list as a simplex index and decoding it returns the same list (for every number of points and dimension where the index is representable), distinct lists have distinct indices, and the dimension is one less than the number of vertices. The basis built for a distance matrix and maximum dimension k (including k = 0, k at least the number of points, and no points) lists every simplex of each dimension 0..k exactly once, in order of diameter and then index; its flattened and per-dimension views agree.",
 ['inputs'],'all numbers of points, vertex lists, symmetric distance matrices and maximum dimensions',
 'The test encodes two lists with 20 points; bases are never inspected.',
 [R],[('positional encoding, recursive coface enumeration, sort',R)],['to_vec/from_indices/dimension, basis elements and sizes'])
p('C13','Rips boundary and coboundary matrices are correct and mutually transposed',
 "The boundary column of a simplex lists each facet once with alternating signs by position of the removed vertex (none for a vertex), the coboundary column lists each cofacet once, and the two matrices are exact transposes of each other over every field, so each composes with itself to zero. The filtration value of a simplex is its diameter, and filtered columns report that value for every entry, whichever view of the matrix is used.",
 ['inputs','configurations'],'all point counts, simplices, symmetric distance matrices, fields, and views (raw, with basis, reversed, borrowed)',
 'Tests count coboundary entries of three simplices over Z2, where every sign error is invisible; filtered columns of the raw coboundary are never requested.',
 [RH,RC,R],[('facet and cofacet iterators with sign by position',RC),('diameter filtration',R)],['column(), column_with_filtration(), filtration_value() of both matrices'])
p('C14','Rips persistence diagrams are the true Vietoris-Rips barcodes',
 "For every symmetric distance matrix with zero diagonal, every maximum dimension and every supported field, reducing the boundary matrix or the reversed coboundary matrix with either algorithm gives the persistent homology of the Vietoris-Rips filtration: the same bars (dimension, birth diameter, death diameter) in every dimension the computation determines. In dimension 0 there is exactly one essential bar and the finite bars die at the minimum-spanning-tree edge lengths; the essential classes of the coboundary computation are only that component.",
 ['inputs','configurations'],'all symmetric distance matrices (ties and duplicate points included), dimensions, fields, and all four algorithm/matrix routes',
 'Only the unit square over Z2 is tested and only by counting pairs.',
 [R,RH,RC,S,K],[('whole pipeline basis -> (co)boundary -> reduction -> diagram',RC)],['bars obtained from diagrams of all routes'])
p('C15','Rips command line reports the barcode of its input',
 "Given a distance matrix as CSV on standard input and an optional maximum dimension (1 if absent), the command line program prints the number of simplices of every dimension up to the maximum, every essential bar and every finite bar longer than 0.01 of the Vietoris-Rips persistent (co)homology up to that dimension, each exactly once with its dimension, birth and death, and nothing else.",
 ['inputs','configurations'],'all CSV distance matrices and maximum dimensions, including 0 and dimensions beyond the number of points',
 'The binary has no tests at all.',
 [RM,RC,R],[('CSV parsing, reduction of the reversed coboundary matrix, report loop',RM)],['standard output of the program'])
p('C16','Grounded path complex: cells, times and (co)boundaries are consistent',
 "For every weighted digraph, the coboundary of each node and edge lists exactly the cells whose boundary contains it, with the same coefficient over every field, so that the boundary and coboundary matrices are transposes and compose to zero; the 2-cells reached are a basis of the path-homology 2-chains at every filtration time. Edges of the input graph are present from time 0, other edges appear at their shortest-path time, a 2-cell appears once all the edges it needs are present, filtered columns report exactly the cell's filtration value, and the basis lists each node and each edge once in filtration order.",
 ['inputs','configurations'],'all digraphs and edge filtrations (absent, tied and infinite times), fields, both filtration containers',
 'Tests print one coboundary and count bars of a cycle and a complete graph with all-equal symmetric structure over Z2.',
 [GC,GB],[('primary bridges, long squares and directed triangles, grounding',GC)],['columns, filtered columns, filtration values and bases of both matrices'])
p('C17','GrPPH barcode equals grounded persistent path homology',
 "For every weighted digraph with non-negative weights (infinite weights, isolated nodes, parallel edges and disconnected graphs allowed), the reported bars in degrees 0 and 1 are exactly the barcode of the grounded persistent path homology of its shortest-path filtration, computed from the definition; zero-length bars are never reported. Degree 0 has one essential bar per weakly connected component, every input edge counts from time 0 on, and both exported functions report the same bars.",
 ['inputs'],'all weighted digraphs (weights with ties, infinities, unreachable pairs)',
 'Tests only know the number of bars for cycles and complete graphs with unit weights; the exported functions are not tested from Rust at all.',
 [G,GC],[('shortest-path filtration, grounding, relative path cohomology via clearing, translation of the diagram',G)],['return value of the exported functions'])
p('C18','GrPPH representatives certify the finite bars',
 "The representative computation returns one representative for each finite degree-1 bar; each is a non-empty list of distinct edges forming a cycle (mod 2) of the grounded graph. The latest of its edges appears at the birth time of its bar, and the cycle becomes a boundary of 2-chains exactly at the death time of its bar, so that births and deaths of representatives match the finite bars one to one.",
 ['inputs'],'all weighted digraphs accepted by the representative computation',
 'No Rust test calls the representative computation; the Python example only checks one cycle graph.',
 [G,GB,S],[('involution: reduce boundary restricted to death cells, read columns of R',G)],['returned representative lists'])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x)+'\n')
