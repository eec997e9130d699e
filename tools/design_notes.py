"""Per-property method notes for DESIGN.md."""
CAUGHT = {
    "b03-mapper-name": "missed at first (calls were computed one by one); caught by C03",
    "b28-gpu-sync": "caught by C28 (missed at first; schedules in which one warp runs ahead were added)",
    "b19-band-weight": "caught by C19 (missed at first; kernels of any scale were added)",
    "b20-mixed-types": "caught by C20 (missed at first; data and image types were added)",
    "b21-tiny-entries": "caught by C21 (missed at first; magnitudes far from one and single precision were added)",
    "b23-unlocked-snapshot": "caught by C23 (missed at first; drawings during line-by-line schedules are now judged)",
    "b09-convergence-last-bin": "caught by C09 (its predecessor, about autocorrelations, was ambiguous and missed; the check gained partially solved starts)",
}
NOTES = {
"C01": """
*Specified* (Avg.tla): `Bins`, a recursion over a baseline's rows in time
order, plus the exact output (mean time, sum of intervals, flag) of every
bin and the output order. *Model checked* (AvgMC): every sequence of up to 4
(thorough 5) rows over 3 times, 2 intervals, 2 baselines, flags; theorems:
partition, no bin longer than requested unless it holds one row, order is
total, bin boundaries are maximal. Every reached history is emitted and
run on the code. *Conformance*: emitted + random rows (uneven spacing,
unsorted, missing baselines, ties) through `time_and_channel`; TLC recomputes
the bins. ~35 s.""",
"C02": """
Avg.tla gives each averaged cell as an exact rational: sums, weighted means,
sigma compared squared. All 14 optional columns are toggled independently;
values are small integers so that dropping, double counting or mis-weighting
one sample shifts the result by more than the tolerance. dtype, absent-column
and input-immutability clauses included. ~35 s.""",
"C03": """
The same operators applied per row chunk and channel chunk; the harness
computes the dask graph with a scheduler that picks a random topological
order and may execute each task twice, and compares declared metadata with
the computed blocks. ~35 s.""",
"C04": """
Rime.tla: Gaussian-integer Jones algebra, `Vis(r,f) = G_p (B + sum_s E_p X
E_q^H) G_q^H`. RimeMC model checks the algebraic theorems (order of sources
irrelevant, Hermitian symmetry of swapped antennas, base visibilities enter
once, reductions in any tree order agree) and emits the present/absent
combinations. Conformance: random small integer Jones, all correlation
shapes, time index offsets, layouts. 14 s.""",
"C05": """
Rime.tla per row chunk; RimeMC's reduction machine explores every order of
folding source chunks, both the chained (stream) and the tree form, and the
theorem that base visibilities enter once. Conformance: random chunkings,
task orders, re-execution, metadata. 15 s.""",
"C06": """
Sky.tla on a lattice where l*u+m*v+(n-1)*w times f/c is a multiple of a
quarter turn; rotations by multiples of 90 degrees and by 3-4-5 angles.
Parallactic angles: entry (time, antenna) equals the single-pair call for any
chunking, and its sine and cosine agree with the position angle computed by
the specification from integer vectors to the field centre, the pole and the
zenith (precession and sidereal time from the harness), within half a degree
times the distances from the pole and the zenith; both external backends.
18 s.""",
"C07": """
Trilinear interpolation is exact over rationals when positions are multiples
of 1/4 cell; the cube holds Gaussian integers; modulus and phase are checked
through squares and cross products. Zernike: Noll polynomials up to order 15
as integer polynomials in x, y. 17 s.""",
"C08": """
Calib.tla: Gaussian-integer gains, exact corrupted / residual values;
correction is decided by corrupting back. Chunked forms against the same
operator. CalibMC: round-trip theorems. 17 s.""",
"C09": """
Calib.tla: jhj, jhr as exact integers; solver histories are recorded by
running with increasing iteration limits and each step is checked against
the specified update (tangent compared on fixed-point cos/sin). Cross-
correlation rows only: how autocorrelations count twice is not specified
anywhere. Starts: random, exact, and partially solved ("one time bin /
channel already converged"). 25 s.""",
"C10": """
Dft.tla: quarter-turn and eighth-turn lattice phases; both transforms are
exact sums; adjointness is a DftMC theorem over all small images. 13 s.""",
"C11": """
Same lattice with the wgridder: uv on integer cells of an n x n image so that
phases are multiples of 1/n turn; TLC sums table cosines as fixed-point
integers with the tolerance of the requested epsilon. Band layouts with
offsets, masks, weights, chunked rows and bands. 8 s.""",
"C12": """
Clean.tla is a state machine (residual, model, iteration) over integers;
CleanMC explores every peak choice among ties and checks conservation of the
dirty image and the stopping rule. Conformance: the final (model, residual)
of the code must be reachable by some behaviour of the machine (TLC explores
tie choices). 14 s.""",
"C13": """
Coh.tla: 16 conversions as Gaussian-integer combinations; CohMC enumerates
all input subsets / output selections and checks that the round trip is the
identity; emitted schemas are run in every nesting, id/name form and dtype.
6 s.""",
"C14": """
BeamHdr.tla: axis grids over integers, file schema expansion as a token
automaton. BeamHdrMC enumerates axis orders and schemas. Irregular grids of
degree axes and lower-case FREQ types are left out: the documentation does
not say what should happen. 9 s.""",
"C15": """
Flux.tla: spectra evaluated at integer frequency ratios and powers of the
base so that every value is an exact rational, Gaussian shapes by the
exponent alone (compared after a logarithm), predictions on the phase lattice
of C04. The code treats non-positive logarithmic coefficients as an error, so
the statement says positive. 34 s.""",
"C16": """
Spi.tla: one Gauss-Newton step written as the 2x2 normal equations over
fixed-point numbers; SpiMC checks that an exact power law is a fixed point and
that zero-weight channels do not matter. Conformance: maxiter=1 traces and
converged fits with their variances. 26 s.""",
"C17": """
WsFile.tla: a line automaton (seek header / body / done / failed) over tokenised lines; WsFileMC
enumerates headers, defaults, missing fields. Emitted files are written to a
scratch directory and loaded. Blank or comment lines between components are
left out: the format does not define them. 6 s.""",
"C18": """
Coord.tla: conversions written with fixed-point sine and cosine of lattice
angles; CoordMC checks that the inverse is an inverse on the lattice including
both poles. The docstring says n - 1 where the code returns n; the statement follows
the code, on which every caller relies. 14 s.""",
"C19": """
PP.tla: kernel taps, packed addresses, facet rotation and phase over rational
angles and quarter turns, so grids are exact rationals. PPMC walks a position
across the grid for every kernel width and oversampling and checks the taps,
the packed addresses and, for every facet, that the rotation is orthonormal
with the facet direction as its w axis. Positions exactly between two cells
or kernel phases depend on rounding and are not generated. The dask gridder
returns the mean over row chunks (its documented design), which is what the
statement says. 40 s.""",
"C20": """
Region.tla: hulls by supporting half planes over the integers, masks as
functions from pixels to weights (units of 1/60), and every operation as a
function or an acceptance relation (tilings, padding and bounding boxes are
relations, so another equally valid placement is accepted). RegionMC runs all
histories of mask operations on three overlapping regions with an explicit
filled-mask cache, checks the cache is never stale and that weights sum to
one, checks the tiling, padding and hull theorems on a lattice, and emits the
histories, which are replayed with reads at the end. Degenerate hulls
(collinear points, boxes one pixel wide) are rejected by Qhull and not
generated; separations exactly at the threshold depend on rounding and are
not generated; fill values other than 0 and NaN are multiplied into the data
by the implementation and are left out of the statement. 20 s.""",
"C21": """
Kron.tla: entries of a Kronecker product by mixed radix indices over the
complex integers. KronMC runs the factor-by-factor algorithm as a state
machine over all factor shapes up to 3x3x3 factors of size 3 and checks it
against the full product, and the Cholesky identity; it emits the shapes.
Factors larger than 127 use a cyclic shift so that the expected vector is
cheap. Covariances use a length scale for which the exponential is a power of
two. The spectrum branch (pspec) of the covariance is undocumented and its
normalisation is not checked. 12 s.""",
"C22": """
Chunks.tla: the aggregation as a sequence of cut positions; ChunksMC runs the
one-pass algorithm on all small chunkings of one and two dimensions, checks
conservation, the maxima, greediness and that the result is the only one
allowed, and emits the chunkings, which are replayed. 8 s.""",
"C23": """
ProgressMC is the protocol: a scheduler running computations one after the
other, timer threads reading the shared task table group by group under a
lock; invariants: a drawing equals the table at the moment the lock was taken,
completed never exceeds total, at most one live timer; liveness: every timer
ends. It found that a timer past its running check could read the next
computation's table while it was being filled (fixed). The conformance side
replaces clocks and sleeps (harness/vtime.py) before the module is imported,
so drawings are a deterministic function of the task durations, and replays
random and emitted computations through dask's own scheduler; races are
explored by stopping the drawing thread before its n-th line while another
thread performs a callback, and by seeded line-by-line schedules of both. A
thread waiting for a lock is recognised by not reaching its next line in
30 ms and is passed over, which cannot cause an alarm. 11 s.""",
"C24": """
MemoMC is the double-checked protocol with one lock: all programs of two or
three threads over two keys and failing evaluations; invariants: at most one
success per key, every result is that success; liveness: every thread ends.
Programs are emitted and replayed line by line under seeded schedules
(harness/vtime.py Lockstep), where the trace functions are active in the
decorated function as well as the library, so a missing lock or a second check
left out shows as a second evaluation within a few of the cases. 10 s.""",
"C25": """
InstallMC: processes with threads that check, lock, download, verify, remove,
put in place and mark installed, step by step, with corrupt and failing
responses and kills; Told/Flag: who is told "installed" finds the complete
directory; Checked: only the expected archive is unpacked; Agrees: the outcome
without kills is that of calls in sequence. With Atomic = FALSE (the tree as
found: copied file by file from another file system) TLC shows a kill after
which a partial directory passes for installed; the same history was
reproduced in the code and is fixed. The conformance side runs every session in
a child process whose data, home and temporary directories lie in a scratch
directory, with urlopen and the hash of the stand-in archive replaced, renames
across the two directories refused (as between file systems) and, for kills,
os._exit at the n-th audited file operation. Starting states and responses
come from the model. 50 s.""",
"C26": """
Assign.tla gives statements a small-step semantics over an environment;
AssignMC executes all programs of two (thorough: three) statements and
checks that bindings last until replaced and only bound names appear; it emits
programs, which are written out with random spacing, quoting and parentheses
and replayed with random larger ones. 6 s.""",
"C27": """
SplineMC eliminates the tridiagonal system over exact fractions row by row and
checks that every row holds and that the clauses on observations accept the
rounded solution. A trace is checked by the characterisation of a spline by
its second derivatives at the knots, which needs no solution of the system. The
tree as found divided nothing in the elimination and read past the end; fixed.
15 s.""",
"C28": """
There is no GPU and no cupy here, so the check supplies both: a stand-in for
cupy (harness/fakecupy.py) compiles each rendered kernel with g++ against a
CUDA emulation (harness/gpu/cupy/carray.cuh) in which the threads of a block
are fibers, run in an order chosen from a seed between barriers and warp
exchanges (all in turn, or one warp or one thread ahead of all others); shared memory and new arrays start as garbage, array accesses are
bounds-checked, arrays have guard zones, and warp primitives used outside
their mask are reported. The results are judged by the specifications of the
CPU forms (Rime, Sky, Coh). GpuMC.tla models a launch (blocks, threads that
leave, ways of filling shared memory, barrier) under every interleaving, and
proves the warp transpose, its ragged last group and the product of 2x2
matrices held one element per lane. Not decided: behaviour specific to NVIDIA
hardware or nvrtc (the emulation accepts what g++ accepts), performance,
non-contiguous arrays and mixed precision. Six defects found and fixed. 45 s.""",
"C29": """
The external library is not installed; harness/fakenifty.py stands in for it
with the same interface and an exact linear gridder (one cell per sample,
in-place accumulation, strict shapes), so the check decides how africanus
splits, accumulates and reassembles, not the accuracy of the gridder.
NiftyMC.tla executes the blocks of all streams in every order and proves that
the in-place accumulation counts every block once and that no grid is written
after the final sum read it. Traces: grid and dirty, model and degrid through
the random task order scheduler. One defect (declared type of the model of a
real image) fixed. 15 s.""",
"C30": """
CellMC.tla lets baselines and wavelengths arrive one at a time and proves that
the cell size only gets finer, gives every fringe two cells for factors of at
least one, does not depend on the order, and that a grid large enough for the
shortest baseline is so for all. Traces: every reached set of samples plus
random ones, with grids one cell below, at and above the limit; exactly enough
cells are decided only where the arithmetic is exact (powers of two). The
inequality printed in the docstring is the reverse of the one the code and its
messages use; the code's is the one that makes sense (the field of view has to
hold the largest scale), so the property states that one. 10 s.""",
}
