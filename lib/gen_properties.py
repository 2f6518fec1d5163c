import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p('C01','Distributed diagonalisation returns the serial result on every message schedule',
 "Distributing the subspace diagonalisations of an iteration over any number of worker processes gives exactly the set of subspaces, eigenvalues and eigenvectors that a single process gives, each subspace exactly once, whatever order messages arrive in and workers finish in. The exchange always terminates: nobody waits forever, no message is left undelivered, and after the end of the calculation every worker has stopped. Matrices and eigenvectors of every size, including sizes that need several message parts, arrive bit for bit.",
 ['schedules','configurations'],"every interleaving of master and worker message operations (send, receive, probe outcomes, task durations), for 1-4 processes and 0-4 subspaces of different sizes, several iterations in a row, real and complex matrices",
 "The repository's MPI runs exercise one accidental schedule on one machine; the regression tests run with a single process, where no message is sent. Early/late probes, reordered completions and the last-task branch are only reachable by exploring schedules.",
 ['c++/diag_mpi.hpp','c++/nrg-lib.cc','c++/diagengine.hpp','c++/diag_serial.hpp'],
 [('task distribution and collection loop','c++/diag_mpi.hpp diagonalisations/diagonalisations_MPI'),('worker loop','c++/nrg-lib.cc run_nrg_slave_impl'),('message-part protocol for matrices and eigenvectors','c++/diag_mpi.hpp send_matrix/receive_matrix/send_raweigen/read_from')],
 ['result of the diagonalisation call','messages in flight after termination','worker exit'])

p('C02','Threaded diagonalisation is independent of thread schedule and free of races',
 "Diagonalising the subspaces of an iteration with any number of threads gives, on every thread schedule, exactly the set of subspaces, eigenvalues and eigenvectors that the sequential code gives. No two threads ever touch the same data without synchronisation, and an error raised by one subspace is reported to the caller rather than lost.",
 ['schedules','configurations'],"every interleaving of threads at synchronisation points (loop-chunk acquisition, critical sections, team start and end) for 1-3 threads and 0-4 subspaces, with a happens-before race check over all instrumented memory accesses on each",
 "A threaded unit test sees whatever schedule the machine happens to pick; a lost update or an iterator invalidated by a concurrent insert needs a specific interleaving.",
 ['c++/diag_openmp.hpp','c++/diagengine.hpp','c++/core.hpp','c++/eigen.hpp'],
 [('parallel loop over subspaces and guarded insertion','c++/diag_openmp.hpp'),('per-subspace Hamiltonian and diagonalisation','c++/core.hpp hamiltonian, c++/diag.hpp')],
 ['result of the diagonalisation call','memory accesses'])

p('C03','Every eigensolver choice returns the true lowest eigenpairs in ascending order',
 "For every Hermitian (real symmetric or complex) matrix and every supported diagonalisation routine and partial-spectrum setting, the returned eigenvalues are the lowest eigenvalues of that matrix in ascending order, and as many as requested. The returned eigenvectors are orthonormal and satisfy the eigenvalue equation, and if a routine cannot deliver the requested accuracy the calculation fails instead of going on.",
 ['inputs','configurations'],"all Hermitian matrices of dimension 1-4 with entries from a small alphabet (degenerate, singular, block-diagonal and defective-looking cases included), every routine, every partial-spectrum ratio and minimum count on a grid",
 "Unit tests diagonalise one or two matrices with one routine; wrong triangle, wrong conjugation, wrong count in partial diagonalisation, or stale workspaces need particular matrices, sizes and orders of calls.",
 ['c++/diag.hpp','c++/eigen.hpp','c++/params.hpp'],
 [('LAPACK drivers and workspace handling','c++/diag.hpp diagonalise_dsyev/dsyevd/dsyevr/zheev/zheevd/zheevr'),('selection of routine and number of eigenpairs','c++/diag.hpp diagonalise'),('post-diagonalisation checks','c++/diag.hpp checkdiag, c++/eigen.hpp RawEigen')],
 ['eigenvalues and eigenvectors returned'])

p('C04','Stored iteration states are all-or-nothing under crashes and write faults',
 "After a crash or a failed write at any point while iteration states (eigenstates or density matrices) are being stored, every stored state that can be read back is complete and equal to what was to be stored, or to the previous complete version. Reading a missing or cut-off state reports an error and leaves the in-memory data as it was, and storing reports an error if the data did not reach the file.",
 ['crash_points','fault_sequences','histories'],"every system call of every store history up to a small length as crash point or failing call (including short writes), every truncation length of every stored file",
 "Tests store and load one state on a healthy disk; a crash between two particular system calls or a full disk is never produced.",
 ['c++/eigen.hpp','c++/operators.hpp','c++/workdir.hpp','c++/portabil.hpp'],
 [('write to temporary and rename','c++/eigen.hpp DiagInfo::save, c++/operators.hpp DensMatElements::save'),('transactional load','c++/eigen.hpp DiagInfo::load, c++/operators.hpp DensMatElements::load')],
 ['stored files in the work directory','state returned by load','errors raised'])

p('C05','A run claims success only if it completed, on every I/O fault',
 "A calculation leaves its completion marker and exits with status zero only if it ran to the end with all its numbers finite and its result files written completely; if any file operation of the run fails, the run ends with a nonzero status and no completion marker, or its results are identical to those of an undisturbed run. A run that is killed at any moment leaves the completion marker only together with complete results. The work directory created by a run that completes is removed, the input files are never changed, and nothing outside the run and work directories is touched.",
 ['fault_sequences','crash_points'],"every failing file-related system call (open, read, write, rename, mkdir, unlink) of a complete small calculation, one fault per run, for several algorithm settings",
 "No test injects I/O faults; what happens when one particular write fails is reached only by enumerating them.",
 ['c++/nrg-general.hpp','c++/nrg.cc','c++/workdir.hpp','c++/output.hpp','c++/io.hpp','c++/outfield.hpp'],
 [('completion marker','c++/nrg-general.hpp'),('work directory lifetime','c++/workdir.hpp'),('output streams','c++/output.hpp, c++/outfield.hpp, c++/io.hpp')],
 ['exit status','completion marker file','result files','work directory'])

p('C06','Damaged input data or parameters are rejected, never silently computed with',
 "If the input data file is cut short at any token, or a number in it is replaced by something that is not a number, the calculation stops with an error instead of producing results. Unknown parameters, values of the wrong type and repeated keys in the parameter file are reported, and the outcome does not depend on the order of parameters, on surrounding blank space, comments or blank lines.",
 ['inputs','fault_sequences'],"every token-level truncation and every single-token corruption of small input data files of several symmetry types, and all parameter files up to a small size over an alphabet of keys, values and layouts",
 "The regression tests use well-formed files only; each truncation point exercises a different reader.",
 ['c++/read-input.hpp','c++/params.hpp','c++/io.hpp','c++/basicio.hpp','c++/coef.hpp','c++/operators.hpp','c++/invar.hpp'],
 [('data file reader','c++/read-input.hpp'),('parameter parser and typed conversion','c++/params.hpp'),('matrix and vector readers','c++/io.hpp, c++/operators.hpp, c++/coef.hpp')],
 ['exit status and message','parameter values in effect'])

p('C07','Truncation keeps the lowest states within the bounds and never splits a cluster',
 "After every iteration the kept states are exactly the lowest-energy ones across all subspaces: no discarded state lies below a kept one. The number kept respects the configured energy cutoff, minimum and maximum counts, a group of states closer than the safeguard gap is never split unless the safeguard maximum forces it, and the discarded set is exactly the complement of the kept one.",
 ['inputs','configurations'],"all small multisets of energies over several subspaces with multiplicities, all settings of cutoff, minimum, maximum, safeguard gap and safeguard maximum on a grid",
 "The tests run physical spectra with one truncation setting; ties, boundary values and interplay of the four limits need combinations.",
 ['c++/truncation.hpp','c++/eigen.hpp','c++/core.hpp','c++/params.hpp'],
 [('number of states to keep','c++/truncation.hpp'),('per-subspace truncation','c++/eigen.hpp truncate_prepare/truncate_perform')],
 ['kept and discarded states per subspace'])

p('C08','Symmetry-sector bookkeeping conserves states for every symmetry type',
 "For every supported symmetry, adding a chain site to any set of sectors distributes the states exactly: the total number of states, counted with multiplicity, is multiplied by the dimension of the added site. Deriving successors of a sector and predecessors of a sector are inverse to each other, every reachable sector has valid quantum numbers, and the parsed and printed forms of a sector are inverse.",
 ['inputs','configurations'],"every symmetry type and channel number supported, every sector within a box of quantum numbers, chains of additions up to a bounded depth",
 "Unit tests check one or two sectors of two symmetries; sign and boundary slips appear only at particular quantum numbers of particular symmetries.",
 ['c++/symmetry.hpp','c++/symmetry/','c++/invar.hpp','c++/subspaces.hpp','c++/core.hpp','c++/mk_sym.hpp'],
 [('successor and predecessor tables','c++/symmetry.hpp ancestors/new_subspaces, c++/symmetry/*.hpp'),('triangle inequality and multiplicity','c++/symmetry/*.hpp triangle_inequality/mult')],
 ['sectors, dimensions and multiplicities'])

p('C09','Untruncated spectra equal exact diagonalisation in every symmetry classification',
 "Without truncation, the many-body spectrum computed iteratively, counted with multiplicity, equals the spectrum obtained by directly diagonalising the Hamiltonian of the same finite chain. This holds for every symmetry classification that the same Hamiltonian admits, for every chain length, every choice of couplings, and with or without particle-hole asymmetry and fields that the symmetry allows.",
 ['configurations','inputs'],"all small model instances over an alphabet of couplings (impurity interaction, level, hybridisation, chain hoppings and on-site energies, fields), chain lengths 1-3, for all supported classifications with an independently built Fock-space reference",
 "Regression tests compare with stored output of earlier versions for one set of numbers per model; equality for arbitrary couplings, where each matrix-element table entry matters, is not covered.",
 ['c++/core.hpp','c++/symmetry/','c++/symmetry/coefnew/','c++/recalc.hpp','c++/subspaces.hpp','c++/coef.hpp','c++/tridiag.hpp'],
 [('Hamiltonian construction','c++/core.hpp hamiltonian, c++/symmetry/*.hpp make_matrix'),('recalculation of irreducible matrix elements','c++/recalc.hpp, c++/symmetry/*.hpp recalc_irreduc')],
 ['energies of each iteration'])

p('C10','Thermodynamic quantities equal exact Boltzmann averages of the spectrum',
 "The reported energy, energy fluctuation, free energy, heat capacity, entropy and quantum-number averages at each temperature equal the exact Boltzmann averages over the many-body states of that iteration, counted with multiplicity, with the exact full-spectrum thermodynamics equal to those of exact diagonalisation when nothing was truncated. They do not depend on the energy zero.",
 ['inputs','configurations'],"all small model instances over an alphabet of couplings and temperatures, several symmetry classifications",
 "Stored reference outputs pin one temperature grid per model; the identity between independently computed averages is never checked.",
 ['c++/measurements.hpp','c++/algo.hpp','c++/stats.hpp','c++/dmnrg.hpp','c++/store.hpp','c++/symmetry/'],
 [('grand canonical sums','c++/measurements.hpp, c++/stats.hpp'),('FDM thermodynamics','c++/measurements.hpp, c++/dmnrg.hpp')],
 ['td, tdfdm result files'])

p('C11','Density matrices are normalised and expectation values are exact averages',
 "The full density matrix has unit trace at every iteration and its weights over iterations add up to one, also with truncation. Without truncation every reported expectation value (conventional, at each temperature, density-matrix based and full-density-matrix based) equals the exact thermal average of that operator in the same finite system.",
 ['inputs','configurations'],"all small model instances over an alphabet of couplings, temperatures and truncation settings, several symmetry classifications, all averaging algorithms",
 "Stored outputs pin one case; sum rules over all algorithm and truncation combinations are not checked.",
 ['c++/dmnrg.hpp','c++/measurements.hpp','c++/store.hpp','c++/operators.hpp','c++/stats.hpp'],
 [('density-matrix back-propagation','c++/dmnrg.hpp, c++/symmetry/*.hpp'),('FDM weights','c++/dmnrg.hpp'),('expectation values','c++/measurements.hpp')],
 ['custom, customfdm result files','density matrices'])

p('C12','Spectral functions carry exact poles and weights in every algorithm',
 "Without truncation, the delta peaks of every computed spectral function (all algorithms, fermionic and bosonic, spin-resolved or not) lie at excitation energies of the same finite system with the weights of the exact Lehmann representation, so their sum obeys the sum rule. Imaginary-frequency results equal the corresponding exact sums, and with truncation the complete-basis algorithms still satisfy the sum rule.",
 ['inputs','configurations'],"all small model instances over an alphabet of couplings and temperatures, algorithms FT, DMNRG, CFS, FDM and their Matsubara variants, several symmetry classifications",
 "Stored outputs pin one spectral function per model after binning; a lost contribution (for one sector, sign of frequency, or algorithm) at other couplings is invisible.",
 ['c++/algo_FT.hpp','c++/algo_DMNRG.hpp','c++/algo_CFS.hpp','c++/algo_FDM.hpp','c++/spectral.hpp','c++/spectrum.hpp','c++/matsubara.hpp','c++/algo.hpp'],
 [('Lehmann sums','c++/algo_*.hpp'),('operator transformation','c++/oprecalc.hpp, c++/recalc.hpp')],
 ['spectral function binary files','Matsubara output files'])

p('C13','Binning of spectral peaks conserves weight and position',
 "Collecting delta peaks into a logarithmic or linear frequency mesh, merging meshes and saving them conserves the total spectral weight and keeps every peak within one bin width of its frequency, with negative frequencies, zero frequency and out-of-range peaks accounted for. Patching spectra of successive iterations never counts a contribution outside its window twice.",
 ['inputs','configurations'],"all sequences of up to four peaks from an alphabet that includes bin edges, zero, minimal and maximal frequencies and values outside the mesh, for several mesh settings",
 "Unit tests insert a few generic peaks; edges and out-of-range values decide correctness.",
 ['c++/bins.hpp','c++/spectrum.hpp','c++/spectral.hpp'],
 [('bin assignment','c++/bins.hpp'),('merging into the full spectrum','c++/spectrum.hpp')],
 ['bin contents and saved files'])

p('C14','Results do not depend on computational strategy settings',
 "Switching the diagonalisation mode, routine, storing and removing of intermediate files, eager or lazy operator recalculation, logging and measurement verbosity, or resuming from stored states, never changes the physical results of a calculation beyond rounding.",
 ['configurations','histories'],"all pairs of strategy settings around a base configuration on small models of several symmetries, real arithmetic",
 "Each regression test has one setting; combinations such as partial diagonalisation with restart or recalculation strategy with lookahead are not compared with each other.",
 ['c++/params.hpp','c++/core.hpp','c++/oprecalc.hpp','c++/nrg-general.hpp','c++/diag.hpp','c++/recalc.hpp'],
 [('strategy parameters','c++/params.hpp'),('recalculation bookkeeping','c++/oprecalc.hpp')],
 ['all result files'])

p('T01','Wilson-chain coefficients reproduce the discretised bath exactly',
 "The hopping and on-site coefficients computed for a Wilson chain, by the standalone tool and by the solver itself, are those of the unique tridiagonal form of the star Hamiltonian given by the discretisation table, so the chain's local resolvent moments equal those of the star for every chain length requested. The hybridisation normalisation equals the integrated bath density, and saving tables and tridiagonalising later gives the same coefficients as doing both at once.",
 ['inputs','configurations'],"all combinations of discretisation parameter, twist parameter, chain length, number of table levels, band type and rescaling on a grid; asymmetric and gapped bands; split save/load runs against combined runs; an exact independent tridiagonalisation in high precision",
 "The tests compare with stored coefficient tables for a handful of parameter sets; index slips at other lengths, precision loss, and asymmetric bands at other parameters are not covered.",
 ['tools/nrgchain/nrgchain.cc','tools/nrgchain/nrgchain.hpp','c++/tridiag.hpp','c++/mp.hpp','tools/common/'],
 [('high-precision tridiagonalisation','tools/nrgchain/nrgchain.cc, c++/tridiag.hpp'),('discretisation tables','tools/nrgchain/nrgchain.cc'),('save and load of tables','tools/nrgchain/nrgchain.cc')],
 ['theta, xi, zeta output files','coefficients used by the solver'])

p('T02','Adaptive discretisation solves its defining equations on the whole range',
 "The discretisation mesh and energy functions written by the adaptive tool satisfy the defining integral equations for the given density of states over the requested range and branch: grid points enclose the prescribed fractions of band weight, and representative energies lie between consecutive grid points, decrease monotonically and tend to their known asymptotic form. For a flat band they agree with the closed-form solution; multiplying the density by a constant leaves them unchanged, and the negative branch of a mirrored band equals the positive branch of the original.",
 ['inputs','configurations'],"all combinations of density shape from a small family, discretisation parameter, range, step and branch on a grid, plus scaled and mirrored variants",
 "The tests compare with stored curves for ten settings; the defining equations are never evaluated on the result.",
 ['tools/adapt/adapt.hpp','tools/adapt/adapt.cc','tools/adapt/load.hpp','tools/adapt/calc.hpp','tools/common/'],
 [('ODE integration','tools/adapt/adapt.hpp'),('density loading and rescaling','tools/adapt/load.hpp, tools/common/tabulated.hpp')],
 ['GSOL and FSOL output files'])

p('T03','Merging of raw spectra over twist parameters conserves every peak',
 "The tools that merge binary spectra over several twist parameters treat the input as the multiset union of all peaks with weights averaged over the number of inputs: the merged spectrum, the imaginary-frequency function and the moments computed from it equal the exact sums over that multiset, independently of the order of peaks and files. Every peak is used exactly once, including duplicates, zero weights, zero and negative frequencies, the first and the last record.",
 ['inputs','configurations'],"all peak multisets up to a small size over an alphabet of frequencies and weights distributed over 1-3 input files, all orders, all numbers of columns and all filter and normalisation options",
 "The tests run one or two fixed files per tool; merging of duplicates, ordering and empty files are not varied.",
 ['tools/binavg/binavg.hpp','tools/mats/mats.cc','tools/specmoments/specmoments.cc'],
 [('peak map merge','tools/binavg/binavg.hpp, tools/mats/mats.cc, tools/specmoments/specmoments.cc')],
 ['output files and printed moments'])

p('T04','Averaging of tabulated curves is exact linear interpolation on the union mesh',
 "Averaging several tabulated curves over twist parameters gives, at every point of the union of their meshes, the mean of the linearly interpolated curves (constant beyond each curve's ends), with every mesh point present once and in ascending order (points closer than a relative 1e-6 count as one). The result is independent of the order of the input files and of the rows, the header comments are kept where requested, the values of blocks of several curves per file are averaged curve by curve, and a reference curve is subtracted exactly where given.",
 ['inputs','configurations'],"all pairs and triples of small curves over an alphabet of abscissae (shared, nested, disjoint, negative, zero) and values, one or two columns, one or two blocks, with and without reference",
 "One or two fixed data sets are tested; mesh relations such as disjoint or nested ranges and duplicated points are not.",
 ['tools/intavg/intavg.cc','tools/tdavg/tdavg.cc'],
 [('union mesh','tools/intavg/intavg.cc, tools/tdavg/tdavg.cc'),('linear interpolation with stateful search','tools/intavg/intavg.cc, tools/tdavg/tdavg.cc')],
 ['output files'])

p('T05','Matrix-expression scripts evaluate to the mathematical value of the expression',
 "Evaluating any expression built from numbers, named parameters, chain-coefficient functions, elementary functions, parentheses, signs and the four operations, and matrices and vectors of such expressions, prints the mathematical value under ordinary precedence and associativity. Assignments take effect for all later lines, chain-coefficient functions return the tabulated coefficient of the requested channel and index, and undefined operations (division by zero, coefficient indices outside the tables, malformed expressions) are reported rather than given a value.",
 ['programs'],"all expressions up to a bounded size over the grammar, all short scripts of assignments and uses, all channels and indices of small coefficient tables",
 "The tests evaluate nine fixed scripts; precedence, associativity and sign handling need the space of expressions.",
 ['tools/matrix/matrix.yy','tools/matrix/matrix.cc','tools/matrix/parser.cc','tools/matrix/matrix.lex'],
 [('grammar and evaluation','tools/matrix/'),('coefficient tables','tools/matrix/')],
 ['standard output and standard error'])

p('T06','Hilbert transform tool integrates the given density exactly at every argument',
 "For every complex argument off the real axis and every density of states (built-in or tabulated, sorted or not, with any scaling), the printed value is the integral of the density divided by the argument minus energy, to the tool's accuracy; it obeys conjugation symmetry, approaches weight over argument far away, and for a negative-definite self-energy the resulting spectral function is never negative. All input modes (single argument, real and imaginary parts, self-energy files) agree with each other.",
 ['inputs','configurations'],"a grid of arguments covering all quadrants, near-axis, in-band, band-edge and far, times a family of densities, scalings and option combinations, times all input modes",
 "Ten fixed cases are tested; quadrant, near-axis branches and mode equivalence are not.",
 ['tools/hilb/hilb.hpp'],
 [('subtracted kernel integration','tools/hilb/hilb.hpp'),('table interpolation','tools/hilb/hilb.hpp')],
 ['printed values and output files'])

p('T07','Kramers-Kronig tool returns the Hilbert transform of its input',
 "The real part returned for a tabulated imaginary part is the principal-value transform, over the tabulated range, of the Akima interpolation of the table: it is odd for even input and even for odd input, invariant under the order of rows, and agrees with closed-form transform pairs within discretisation accuracy. The output has one row per input frequency, and inputs on which the transform is undefined are rejected.",
 ['inputs'],"all small integer-coefficient combinations of a family of line shapes (Lorentzians, Gaussians and differences) on symmetric meshes of several sizes, all row orders on tiny meshes, both input modes",
 "One fixed spectrum is tested.",
 ['tools/kk/kk.hpp'],
 [('interpolated principal-value integral and tail','tools/kk/kk.hpp')],
 ['printed transform'])

p('T08','Integration tool reports consistent integrals of the tabulated function',
 "The total, positive, negative, absolute and thermally weighted integrals reported for a tabulated function are those of its Akima interpolation over the tabulated range: parts add up to the total, the result is unchanged by the order of rows, and exact for piecewise-linear data on which the interpolation is exact.",
 ['inputs','configurations'],"all small tables over an alphabet of abscissae and values with signs, all integration modes and temperatures on a grid",
 "One fixed table is tested.",
 ['tools/integ/integ.cc'],
 [('Akima interpolation and subrange integration','tools/integ/integ.cc')],
 ['printed integrals'])

p('T09','Dense linear-algebra tools return exact products and ascending eigenpairs',
 "The diagonalisation tool prints all eigenvalues of the given symmetric matrix in ascending order with matching orthonormal eigenvectors, scaled as requested, identically in text and binary output; the transformation tool gives the product of its three matrices, from text or binary files, with the requested transpositions, scaling and chopping. Inputs that are not of matching rectangular shape are rejected.",
 ['inputs','configurations'],"all symmetric matrices of dimension 1-3 over a small alphabet and all small conforming and non-conforming rectangular triples, all option combinations",
 "One fixed matrix is tested for one tool, none of the option combinations for the other.",
 ['tools/diag/diag.cc','tools/unitary/unitary.hpp'],
 [('eigenvalue driver','tools/diag/diag.cc'),('triple product','tools/unitary/unitary.hpp')],
 ['printed numbers and files'])

p('T10','Broadening conserves spectral weight and never invents or loses peaks',
 "Broadening a discrete spectrum gives the weighted sum of the documented kernels over all peaks of all input files (averaged over twist parameters), independent of the order of peaks and files; with the normalised kernels it integrates to the total weight, and the adaptive tool follows its self-consistent widths. Filters, cumulative sums and reported sum rules refer to the same multiset of peaks, and resampling a function reproduces it at its own mesh points and interpolates it elsewhere.",
 ['inputs','configurations'],"all peak multisets up to a small size over an alphabet of frequencies (both signs, zero, extreme) and weights, over 1-2 files, for each kernel and option setting",
 "The tools have help and missing-file tests only, or no test at all.",
 ['tools/broaden/broaden.hpp','tools/bw/bw.cc','tools/resample/resample.hpp'],
 [('kernels and mesh','tools/broaden/broaden.hpp'),('self-adaptive widths','tools/bw/bw.cc'),('resampling','tools/resample/resample.hpp')],
 ['output files'])

p('T11','Tools refuse incomplete or malformed input instead of producing results',
 "A data-processing tool whose input file is missing, cut off in the middle of a record, not numeric where a number is required, or too short for the requested operation ends with a nonzero exit status and an error message, and does not present partial results as success. A tool whose output cannot be written does not report success.",
 ['inputs','fault_sequences'],"every byte-level truncation of small binary inputs, every token-level truncation and corruption of small text inputs, every missing file among several, and every failing open or write of the output, for every tool",
 "A few tools have one missing-input test each.",
 ['tools/'],
 [('input readers','tools/*/'),('output writers','tools/*/')],
 ['exit status','standard error','output files'])

p('T12','Model templates instantiate to the chain defined by the given parameters',
 "Instantiating a template with a parameter file and coefficient tables gives a data file in which every placeholder is replaced by the value of its expression and everything else is copied unchanged; the built-in evaluator and chain generator give the same numbers as the standalone tools. Errors in the parameters, the tables or the expressions stop the instantiation.",
 ['inputs','programs','configurations'],"all small templates over the directive alphabet, all expressions up to a bounded size for the evaluator against the same reference as the standalone tool, coefficient modes on a grid",
 "The instantiation tests are not part of the runnable suite; they compare fixed templates.",
 ['tools/instantiate/instantiate.cc','tools/instantiate/matrix_evaluator.hpp','nrginit','nrgspawn'],
 [('template processing','tools/instantiate/instantiate.cc'),('expression evaluator','tools/instantiate/matrix_evaluator.hpp')],
 ['generated data file'])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
