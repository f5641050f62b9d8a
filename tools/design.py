import json, re, glob, os
d=open('/verif/DESIGN.md').read()
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
how={
"C01":"Each operation is called on matrices with all entries symbolic; the oracle is the entrywise textbook formula, written as loops in the harness. Operands are compared with copies afterwards; indices are symbolic in the access entries, and out-of-range ones must abort in debug mode.",
"C02":"Real entries (any number and position of zeros) and, bit-precisely, every IEEE pattern: a query decides `thrown <=> some used divisor == 0`.",
"C03":"Polynomial/piecewise identities over all sign patterns; roots are characterised by `r >= 0 && r*r == sum`.",
"C04":"Bit-precise floating point queries for equality, lexicographic order, irreflexivity, asymmetry, transitivity and totality.",
"C05":"LAPACK `?gesv` is a contract (x with A x = b, or info > 0). The oracle is the residual A X - B; what is checked is storage order, leading dimensions, copies and error handling around the call.",
"C06":"`?geqr2` is a contract: any Householder vectors and any R. Q orthogonal with det +1, Q R = A, R triangular, sign rule, agreement of all variants, determinant against the Leibniz formula.",
"C07":"Linear combinations and inner products with aliasing; CG is executed for all symbolic data with an operator that counts its applications; residual and exceptions are asserted.",
"C08":"Symbolic index and range: digits in range and recomposition; tensorial points against digits.",
"C09":"Numbering for every representable size (bit-vectors), transfer with a symbolic node and symbolic vectors.",
"C10":"Two symbolic hyperedges and hyperfaces: equal hypernodes iff equal geometric position, computed independently in the harness from the documented numbering of TPCC; counts; histories of refinements, copies.",
"C11":"Files are token lists with symbolic numbers in many layouts; the domain read must have exactly the symbolic contents, malformed files must throw or abort as documented.",
"C12":"Symbolic indices; oracle: valid iff all indices in range and (points) no duplicates; both modes.",
"C13":"Symbolic points and epsilon; oracle: graph of pairs at distance < epsilon and its connected components computed in the harness.",
"C14":"The matrix is Q R with symbolic Householder factors (a parametrisation of all matrices in the bounds for which the contract of `?geqr2` returns these factors); mapping, inverse, normals and areas against linear algebra written out.",
"C15":"Every hyperedge (symbolic index) of grids and files; points, spans, lexicographic points, boundary points and normals against the corners of the hyperedge.",
"C16":"Symbolic hyperedge; type of a face iff it lies on that side of the domain (grids), the types of the file for parts of original faces and zero inside (files).",
"C17":"The container is built from stand-in topology/geometry/descriptor whose answers are symbolic; hyperedges delivered by index and iteration are the parts with that index; data survive, refinements reset.",
"C18":"Local solver with symbolic matrices: the global result is the assembled sum over hyperedges, zero at Dirichlet indices; linearity, history independence.",
"C19":"Matrix entries (summed per position) equal the assembled operator, applied to every vector.",
"C20":"As C18 with times, stored data and sequences of steps.",
"C21":"As C18 for the three eigenvalue loops: operator, mass operator, Jacobian, Dirichlet indices.",
"C22":"Oracle in the harness: an independent assembly of the mixed local problem with exact polynomial integration; the local solution is characterised by its equations, the flux compared as a linear function of the symbolic trace and data.",
"C23":"As C22 for the fourth order problem.",
"C24":"A parser in the harness reads the written file (in-memory during symbolic execution, real natively) and compares structure and symbolic values with the stand-in geometry and solver.",
"C25":"As C22; the Jacobian is compared with the derivative of the characterised flux.",
"C26":"As C22; two consecutive steps with symbolic traces and stored data.",
"C27":"As C22 with the equations of the beam in its local frame.",
"C28":"As C22 for three further solvers.",
"C29":"`jit/jit.py`: the Python code is run unchanged in a scratch copy whose cython, compiler and linker are stand-ins recording all they read (`jit/tool.py`). `os.stat` delivers modification times as z3 terms over the unknowns \"file f is changed before call s\"; every comparison the code branches on is a fork decided by z3, and configurations, failing tools, processes and include relations are symbolic choices. Asserted: returned module against the configuration (compared with the templates), `last change of every file read <= build step` (a query), no needless compilation, failures. Counterexamples are replayed with real time stamps and the unpatched `os.stat`.",
"C30":"`jit/wrap.py`: the bodies of the extension classes are executed with arguments of an uninterpreted sort and strings of symbolic content against the class the .pxd declares; results are fresh symbols. z3 decides that calls and results are passed on. Replays build the real wrapper with Cython and g++ around a recording C++ class.",
}
def bounds(i):
    out=[]
    for f in sorted(glob.glob(f'/verif/harness/{i}_*.cxx')):
        out+=re.findall(r'// VF-BOUNDS: (.*)',open(f).read())
    if i in("C29",): out=["one to four imports; see the scenarios in jit/jit.py (copied into the evidence)"]
    if i in("C30",): out=["all forms of construction, up to two (thorough: three) calls"]
    return "; ".join(out)
import subprocess
walls={}
for p in props:
    e=f"/verif/evidence/{p['id']}.json"
    if os.path.exists(e):
        j=json.load(open(e))
        if j['tier']=='quick': walls[p['id']]=j['wall_s']
rows=[]
for p in props:
    i=p['id']
    if i=="C31":
        rows.append(f"### C31 {p['title']}\nNot applicable: the solver is built on integrals of the absent submodule TPP over the inflow parts of faces (`*_cutwind*`), whose meaning is documented nowhere in the repository.\n"); continue
    rows.append(f"### {i} {p['title']}\n{how[i]}\n\n*Bounds:* {bounds(i)}\n\n*Beyond tests:* {p['why_tests_cant']}"+(f" *Quick run:* about {walls[i]:.0f} s on 8 cores." if i in walls else "")+"\n")
open('/tmp/table.md','w').write("\n".join(rows))
k=json.load(open('/verif/known_findings.json'))
fx="\n".join(f"- {x['id']} ({x['property']}): {re.sub('^fixed: property=C.. ','',x['what'])}" for x in k if x['status']=='fixed')
kn="\n".join(f"- {x['id']} ({x['property']}): {x['what']}" for x in k if x['status']=='known')
head=d[:d.index('## Properties')]
bugs=[]
for b in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{b}/meta.json'))
    bugs.append(f"| {b} | {m['needs']} | {m['property']} |")
out=head+"""## Properties
Also in `properties.jsonl` (generated, as is `MANIFEST.json`, by `tools/table.py` from `tools/properties_table.py`).
For every property the deciding step is the solver's verdict on `path && !assertion` for all values within the bounds.

"""+"\n".join(rows)+"""
## Defects found
Repaired by "fix:" commits in /repo (hash, what failed):

"""+fx+"""

Known findings, reported as KNOWN-FINDING and not repaired:

"""+kn+"""

K01/K04: the interface of `inner_normal` (which columns of Q are meant for hyperedges that are not orthogonal) would have to be
redefined. K02, K03: features that are declared but not implemented.

## Limits
- `Topology::Cubic` with unsigned indices; `map_physical_to_reference` only for square matrices; `Parabolic::residual_flux` with
  `std::vector` only; `Geometry::File` with four and more symbolic points only with assertions off (path explosion).
- Member functions that use an outdated interface of TPP (`make_initial` and `errors_temp` of Diffusion, Bilaplacian and
  DiffusionAdvectionReaction) cannot be instantiated at all and are outside. `DiffusionParab::make_initial/set_data` exist only
  for hyEdge_dim = space_dim.
- BilaplacianParab for theta = 1 only; BilaplacianUniform has its own numbering of fluxes, which is taken as it is.
- The headers of `bilaplacian_uniform`, `diffusion_parab`, `advection_parab` and `timoshenko` are not self-contained; the
  harnesses include what they need.
- The eigenvalue solvers pass the eigenvalue as time to coefficients; coefficients that depend on time are outside.
- Latent and outside (not reachable through the checked interface): `BilaplacianEigs::make_initial` passes an index that is not
  reduced for the Laplacian half; `DiffusionIP::assemble_rhs_from_coeffs` is unused and indexes out of range.
- `TimoshenkoBeam` adds to its output (callers pass zero), and its data do not depend on time. Its law, read off the code and
  its default problem: n/C + u' - t x phi = 0, m' - t x n = g in a right-handed frame.
- `b / A` with operands that are not constant destroys A by design; vectors that are too long are accepted by the global loops,
  those that are too short only rejected when a missing entry is needed.
- C29: headers that are included otherwise than by `#include <HyperHDG/...>` and those of the submodules are not tracked by the
  code by design; files do not change while an import runs; paths with blanks are outside.
- Symbolic reals are exact; rounding, overflow to infinity and NaN are covered only where an entry uses bit patterns (C02, C04).
- Concurrency: the library has none.

## False alarms met and removed
Slack for comparisons of `float` code, tolerance of native replays that take another branch by rounding (exit 77/78: witness is
discarded), sizes of local problems asserted instead of required to compile, needless demand that `b / A` keeps non-constant A,
order of includes and of calls that the property does not prescribe. Each was corrected in the harness or the property's text.

## Planted bugs
`seeded/` holds them; `tools/mkbug.py` builds and confirms one, `tools/runbug.sh` runs the property's check on it. All of them
are caught by the quick check of their property. C12-last-vertices-unchecked and C15-extra-data-of-refined-edge were missed at
first; C12 got entries in which any one index of hyperedges of dimension 1..3 is arbitrary, C15 entries on the properties of
refined hyperedges.

| bug | needs | caught by |
|---|---|---|
"""+"\n".join(bugs)+"""

Besides, single-token mutants (operators, constants, indices, swapped arguments; one mutant per randomly chosen line) were run
against the checks of the file: of the first 92 that compile and change code the survivors were equivalent (a constructor factor
of 1, a by-value argument that is never read again, constexpr sizes inside assertions) or led to new entries (points at distance
exactly epsilon, the mass operator's default time, system dimension of DiffusionAdvectionReaction).

"""
open('/verif/DESIGN.md','w').write(out)
