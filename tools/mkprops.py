#!/usr/bin/env python3
"""Regenerate /verif/properties.jsonl (single source of the property texts)."""
import json, os
S = 'src/diffpy/srreal/'
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Incremental re-evaluation equals evaluation from scratch",
 "For every pair-sum calculator, after any sequence of structure edits, structure replacements, mask changes and configuration changes, evaluating with the incremental (fast update) evaluator gives the same results (within the configured peak cutoff precision) as a fresh calculator with the same configuration and mask evaluated from scratch on the same structure. The checking evaluator never reports a mismatch and never changes the result. Skipping the update because nothing changed is only allowed when the result would be unchanged.",
 ["histories", "configurations", "inputs"],
 "every finite history of atom edits/insertions/removals/permutations, lattice and symmetry changes, structure type changes, structure assignment without evaluation, mask and parameter changes, interleaved with evaluations, for all calculators and evaluator kinds",
 "Unit tests replay a dozen fixed one-step edits on two structures; the update path depends on the whole history of cached structure, tickers, stashed partial sums and masks.",
 [S+"PQEvaluator.cpp", S+"PQEvaluator.hpp", S+"PairQuantity.cpp", S+"StructureDifference.cpp", S+"AtomicStructureAdapter.cpp", S+"PeriodicStructureAdapter.cpp", S+"CrystalStructureAdapter.cpp", S+"PDFCalculator.cpp", S+"BaseDebyeSum.cpp", S+"DebyePDFCalculator.cpp", S+"BondCalculator.cpp"],
 [("optimized evaluator", S+"PQEvaluator.cpp PQEvaluatorOptimized::updateValue"), ("structure difference", S+"*StructureAdapter.cpp diff"), ("stash/restore partial value", S+"PairQuantity.cpp, PDFCalculator.cpp, BaseDebyeSum.cpp, BondCalculator.cpp")],
 [("last evaluated structure and value ticker", "decides whether and how the cached pair sum may be updated", S+"PQEvaluator.hpp")])

prop("C02", "Parallel evaluation equals serial evaluation",
 "For every calculator, structure, mask and number of workers (including more workers than sites), splitting the evaluation over workers that share the same configuration and evaluation history and merging their partial results in any order gives the result of a single serial evaluation. Merging is refused once all workers were merged, and malformed partial data or a non-positive number of workers is rejected with an error rather than producing a wrong result.",
 ["configurations", "inputs", "schedules"],
 "every worker count 1..many, every merge order, every structure kind (atomic, periodic, crystal), mask and calculator; over- and under-sized partial data",
 "Tests use two or three fixed worker counts on a couple of structures; correctness depends on how site ranges or pair counts are partitioned for every (sites, workers) combination.",
 [S+"PQEvaluator.cpp", S+"PairQuantity.cpp", S+"BondCalculator.cpp", S+"OverlapCalculator.cpp"],
 [("work partition", S+"PQEvaluator.cpp PQEvaluatorBasic::updateValue, setupParallelRun"), ("merge", S+"PairQuantity.cpp mergeParallelData / executeParallelMerge")])

prop("C03", "Pair enumeration is complete, unique and within range",
 "For any structure and any distance bounds, iterating over the neighbours of an anchor site visits each atom image whose separation lies within the bounds exactly once, visits none outside the bounds and never the anchor itself, for any selection of sites and any cell shape. Each visited pair carries the correct site indices, positions, separation vector, distance, displacement tensors and multiplicity. Changing the anchor, the site selection or a bound ends the running iteration until it is restarted. The bond listing reports precisely these pairs, sorted by distance, with its cone filters applied exactly.",
 ["inputs", "configurations", "histories"],
 "all non-periodic, periodic and crystal structures incl. strongly skewed or needle-like cells, atoms outside the cell, special positions; all rmin/rmax, site selections, repeated rewinds and reuse of one generator",
 "Tests check bond counts of a few orthogonal crystals; completeness is a statement over all lattices, ranges and atom placements.",
 [S+"BaseBondGenerator.cpp", S+"PeriodicStructureAdapter.cpp", S+"CrystalStructureAdapter.cpp", S+"PointsInSphere.cpp", S+"BondCalculator.cpp", S+"PairCounter.cpp", S+"NoSymmetryStructureAdapter.cpp"],
 [("bond iteration", S+"BaseBondGenerator.cpp next/advanceWhileInvalid"), ("periodic image iteration", S+"PeriodicStructureAdapter.cpp PeriodicStructureBondGenerator"), ("bond list and filters", S+"BondCalculator.cpp")])

prop("C04", "Crystal symmetry description equals its explicit expansion",
 "A crystal given as an asymmetric unit with symmetry operations yields the same site multiplicities, equivalent positions, occupancy totals, number density, displacement tensors and calculator results (PDF, bonds, bond valence sums, pair counts, overlaps) as the same crystal written out with all equivalent atoms in the cell. This holds for special positions within the symmetry tolerance, for any ordering of the operations and for atoms given outside the unit cell, and after any later edit of atoms, lattice or operations.",
 ["inputs", "configurations", "histories"],
 "all symmetry operation groups, lattices compatible with them, general and special positions, occupancies, anisotropic displacements, edits after first use",
 "Tests check multiplicities in a few cubic and rhombohedral crystals with identity as first operation and exact coordinates.",
 [S+"CrystalStructureAdapter.cpp", S+"CrystalStructureAdapter.hpp", S+"StructureAdapter.cpp", S+"BVSCalculator.cpp", S+"OverlapCalculator.cpp"],
 [("symmetry expansion", S+"CrystalStructureAdapter.cpp expandLatticeAtom/updateSymmetryPositions"), ("symmetry cache", S+"CrystalStructureAdapter.cpp isSymmetryCached")],
 [("cached symmetry images", "images per site and the lattice/atoms they were made for", S+"CrystalStructureAdapter.hpp")])

prop("C05", "Unit cell geometry is self-consistent",
 "For any valid unit cell, base vectors, metric, volume, reciprocal parameters, fractional-Cartesian conversions, dot products, norms, distances, angles and displacement tensor transformations agree with their definitions from the cell parameters, and each conversion is inverted by its counterpart. A cell built from its base vectors has the same parameters and geometry, and a reciprocal of a reciprocal is the original cell. Vector and matrix operations agree with their definitions, degree-based trigonometric helpers agree with the mathematical functions, and no geometric query on finite nonzero vectors returns an undefined number.",
 ["inputs", "histories"],
 "all non-degenerate cells (any size, skew, handedness, rotated bases), all vectors incl. parallel and antiparallel, any order of setting parameters or base",
 "Tests use five cells and hand-picked vectors; the identities are quantified over all cells and vectors incl. round-off corners.",
 [S+"Lattice.cpp", S+"Lattice.hpp", S+"R3linalg.cpp", S+"R3linalg.hpp", "src/diffpy/mathutils.ipp"],
 [("cell setup", S+"Lattice.cpp setLatPar/setLatBase/updateStandardBase"), ("degree trigonometry", "src/diffpy/mathutils.ipp")])

prop("C06", "Lattice points and reflections in a range are enumerated exactly",
 "For any unit cell and bounds, enumerating lattice points within a spherical shell yields each integer triplet strictly inside the bounds (including the origin unless the lower bound is positive) exactly once and no other, with the correct distance, also after the iteration is restarted. The same holds for reflections within a range of lattice spacings, whose reported spacing matches the reciprocal metric.",
 ["inputs", "configurations"],
 "all cells incl. triclinic and strongly skewed, all bounds incl. empty, inverted and tiny ranges",
 "Tests check orthogonal and hexagonal examples only.",
 [S+"PointsInSphere.cpp", S+"PointsInSphere.hpp"],
 [("shell iteration", S+"PointsInSphere.cpp PointsInSphere::next_*"), ("reflections", S+"PointsInSphere.cpp ReflectionsInQminQmax/ReflectionsInDmaxDmin")])

prop("C07", "Pair and type masks select exactly the intended pairs",
 "After any sequence of mask operations by site index, all-sites wildcard, atom type, all-types wildcard, whole-mask setting and inversion, the reported mask of every pair and type pair is the one implied by applying those operations in order, and is symmetric in its arguments. Every calculator sums exactly the unmasked pairs, and masks follow sites or types when another structure is assigned.",
 ["histories", "inputs", "configurations"],
 "all sequences of mask operations interleaved with structure assignments (more or fewer sites, other types) and evaluations",
 "Tests check a handful of single mask operations; semantics depend on operation order, wildcards and structure changes.",
 [S+"PairQuantity.cpp", S+"PairQuantity.hpp", S+"PQEvaluator.cpp"],
 [("mask bookkeeping", S+"PairQuantity.cpp setPairMask/setTypeMask/updateMaskData/maskAllPairs/invertMask"), ("mask use", S+"PQEvaluator.cpp updateValue")])

prop("C08", "Real-space PDF equals its defining pair sum",
 "For any structure and configuration the real-space calculator's RDF, RDF/r, PDF and extended arrays equal the defining sum over all pairs in range of peak profiles weighted by scattering amplitude, occupancy and multiplicity, with the configured baseline, envelopes and Q-range filtering applied, on the documented r and Q grids. The result at a given r does not depend on how the r-range is chosen around it beyond the peak cutoff precision.",
 ["inputs", "configurations"],
 "all structure kinds, r-grids (any rmin, rmax, rstep), Q-limits, peak width models, profiles, baselines, envelopes, scattering tables, custom scattering amplitudes",
 "Tests compare stored curves for a few crystals; the definition is quantified over all structures, grids and parameters.",
 [S+"PDFCalculator.cpp", S+"PDFUtils.cpp", S+"PDFUtils.ipp", S+"GaussianProfile.cpp", S+"LinearBaseline.cpp", S+"StructureAdapter.cpp"],
 [("peak summation", S+"PDFCalculator.cpp addPairContribution"), ("grids and cropping", S+"PDFCalculator.cpp cacheRlimitsData, getRgrid"), ("band filtering", S+"PDFUtils.cpp bandPassFilter")])

prop("C09", "Debye scattering sum equals its definition",
 "For any structure and configuration the reciprocal-space calculator's F(Q) equals the Debye sum over all pairs in range with per-site scattering amplitudes (including site occupancy), thermal damping and multiplicity, on the configured Q-grid, and its PDF is the sine transform of that F(Q) with the configured Q-limits and envelopes.",
 ["inputs", "configurations"],
 "all structures incl. mixed occupancies, types and displacements, all Q-grids, r-grids, precision settings, scattering tables",
 "Tests compare F(Q) for a few dimers and small molecules with unit occupancies.",
 [S+"BaseDebyeSum.cpp", S+"DebyePDFCalculator.cpp", S+"PDFUtils.cpp"],
 [("pair term", S+"BaseDebyeSum.cpp addPairContribution"), ("scattering cache", S+"BaseDebyeSum.cpp cacheStructureData"), ("transform", S+"DebyePDFCalculator.cpp getPDFAtQmin")])

prop("C10", "Bond valence sums equal their definition",
 "For any structure of ions and any parameter table, each site's bond valence sum equals the sum over its neighbours of the occupancy-weighted tabulated bond valence with the sign of the site's charge, contributions below the configured precision excepted. The derived expected valences, differences and global deviation are consistent with those sums, and parameter lookup does not depend on the order in which the two ions are given.",
 ["inputs", "configurations"],
 "all structures incl. symmetry sites of different multiplicity, partial occupancies and mixed-valence ions; standard and custom parameters; precision settings",
 "Tests check NaCl only, where all multiplicities are equal.",
 [S+"BVSCalculator.cpp", S+"BVParametersTable.cpp", S+"BVParam.cpp"],
 [("contribution", S+"BVSCalculator.cpp addPairContribution"), ("lookup", S+"BVParametersTable.cpp lookup"), ("range", S+"BVSCalculator.cpp rmaxFromPrecision")])

prop("C11", "Atom overlap analysis equals its definition",
 "For any structure and radii the reported overlaps, overlapping site pairs, squared-overlap totals, mean and maximum, coordination numbers, neighbour lists and neighbourhoods equal those computed from all pairs closer than the sum of their radii. The predicted cost change for flipping two atom types equals the actual change on re-evaluation, and gradients equal the derivative of the total with respect to atom positions.",
 ["inputs", "configurations", "histories"],
 "all structures (atomic, periodic, crystal), radii tables, occupancies, flips and displacements, repeated evaluations",
 "Tests check NaCl-like examples and a few flips with unit occupancies.",
 [S+"OverlapCalculator.cpp", S+"AtomRadiiTable.cpp"],
 [("pair data", S+"OverlapCalculator.cpp addPairContribution"), ("flip differences", S+"OverlapCalculator.cpp getFlipDiffTotal/getFlipDiffMean"), ("neighbor cache", S+"OverlapCalculator.cpp cacheNeighborIds")])

prop("C12", "Save and restore preserves state at any point",
 "Any calculator, structure, lattice, table, peak, baseline or envelope object saved and restored at any point of its use reports the same configuration and results as the original, and after any common continuation of edits and evaluations the original and the restored object keep giving the same results. Saving never alters the original.",
 ["histories", "crash_points", "configurations"],
 "every point of every history of configuration, masks, evaluation, partial parallel runs and structure edits at which state may be saved; text archives of all exported classes",
 "Tests serialize freshly configured or once-evaluated objects and compare a few fields.",
 ["src/diffpy/serialization.hpp", "src/diffpy/serialization.ipp", "src/diffpy/EventTicker.cpp", S+"PairQuantity.hpp", S+"PQEvaluator.hpp", S+"OverlapCalculator.hpp", S+"PDFCalculator.hpp", S+"DebyePDFCalculator.hpp", S+"ScatteringFactorTable.hpp", S+"AtomRadiiTable.cpp"],
 [("archive functions", S+"*.hpp serialize/save/load"), ("event clock restoration", "src/diffpy/EventTicker.hpp")])

prop("C13", "Results depend only on the current configuration",
 "For every calculator and configurable component, the results after any sequence of setter calls, attribute writes, component replacements and intermediate evaluations equal those of a freshly created object brought directly to the same final configuration. Reads never change a result, and a configuration change made through a shared component takes effect in the next evaluation. The only history the Debye calculator may keep is its reported upper pair distance limit, retained while it is less than 50 r-steps above the needed one, and the enforced optimum Q-step.",
 ["histories", "configurations"],
 "all sequences of parameter changes, component swaps (profile, width model, baseline, envelopes, tables, radii), in-place component edits and evaluations",
 "Tests set parameters once before evaluation; stale caches need a change-evaluate-change history.",
 [S+"PDFCalculator.cpp", S+"DebyePDFCalculator.cpp", S+"BaseDebyeSum.cpp", S+"BVSCalculator.cpp", S+"OverlapCalculator.cpp", S+"PeakWidthModel.cpp", S+"PDFEnvelope.cpp", S+"ScatteringFactorTable.cpp", S+"PeakProfile.cpp"],
 [("change tracking", "src/diffpy/EventTicker.hpp and ticker() overloads"), ("cached limits and structure data", S+"PDFCalculator.cpp, BaseDebyeSum.cpp, DebyePDFCalculator.cpp")])

prop("C14", "Scattering, radii and valence tables answer faithfully",
 "Scattering factor, electron number, radii and bond valence tables return, for every symbol they accept (in every accepted spelling), the value defined by their shipped data files and formulas, and reject unknown symbols with an error. User overrides apply exactly to the symbols they were set for, are removed exactly when reset, and leave other symbols and other table instances untouched. If a data file cannot be read the failure is reported, and once the file is available again the lookups give correct values.",
 ["inputs", "histories", "fault_sequences"],
 "all table types, symbols and Q values; all sequences of set, set-as, reset, clone; unreadable, missing or malformed data files at first use",
 "Tests look up a few symbols in an intact installation.",
 [S+"ScatteringFactorTable.cpp", S+"SFTXray.cpp", S+"SFTElectron.cpp", S+"SFTNeutron.cpp", S+"SFTElectronNumber.cpp", S+"scatteringfactordata.cpp", S+"BVParametersTable.cpp", S+"AtomRadiiTable.cpp", S+"AtomUtils.cpp", "src/diffpy/runtimepath.cpp"],
 [("table singletons", S+"scatteringfactordata.cpp, BVParametersTable.cpp"), ("custom values", S+"ScatteringFactorTable.cpp, AtomRadiiTable.cpp")])

prop("C15", "Results are invariant under physically irrelevant changes",
 "Calculated PDF, F(Q), bond lengths, bond valence sums, pair counts and overlaps do not change when the structure is rigidly rotated or translated, atoms are reordered or moved by lattice vectors, the cell is re-described by an equivalent lattice basis, a full-occupancy atom is split into co-located partial ones where the quantity is occupancy-weighted, or disorder-free repeats use a supercell; per-site results are permuted accordingly.",
 ["inputs", "configurations"],
 "all structures and rigid motions, permutations, unimodular cell transformations and small supercells",
 "Metamorphic relations over all structures; tests have none beyond a pair of stored crystals.",
 [S+"PeriodicStructureAdapter.cpp", S+"CrystalStructureAdapter.cpp", S+"PDFCalculator.cpp", S+"BaseDebyeSum.cpp", S+"BVSCalculator.cpp", S+"OverlapCalculator.cpp", S+"Lattice.cpp"],
 [("pair summation", S+"PQEvaluator.cpp"), ("image generation", S+"PeriodicStructureAdapter.cpp")])

prop("C16", "Valid use never triggers memory errors or undefined behaviour",
 "No sequence of valid public calls (construction, configuration, editing, evaluation, queries, cloning, saving and restoring, destruction) and no call rejected with an error reads or writes outside live objects, uses uninitialised data, leaks memory, overflows integers or otherwise executes undefined behaviour or an internal consistency failure.",
 ["programs", "inputs", "histories"],
 "all call sequences over all classes with valid and rejected arguments, including boundary sizes (no atoms, one atom, empty grids, empty ranges) and malformed data files",
 "Tests run without sanitizers on small samples and do not look at memory behaviour.",
 ["src/diffpy/*.cpp", S+"*.cpp"],
 [("array indexing in calculators", S+"PDFCalculator.cpp addPairContribution, OverlapCalculator.cpp, PDFUtils.cpp"), ("iterator ranges in bond generators", S+"BaseBondGenerator.cpp")])

prop("C17", "A rejected call leaves the object unchanged",
 "Whenever a setter, attribute write, lookup, factory or parser rejects its arguments with an error, the object still reports the same configuration and produces the same results as before the call, and later valid calls work normally. Documented invalid arguments are always rejected.",
 ["inputs", "histories", "fault_sequences"],
 "all error-raising calls of all public classes, at any point of a history",
 "Tests assert that errors are raised, not what state they leave behind.",
 [S+"Lattice.cpp", S+"PDFCalculator.cpp", S+"DebyePDFCalculator.cpp", S+"BaseDebyeSum.cpp", S+"PairQuantity.cpp", S+"AtomRadiiTable.cpp", S+"BVParametersTable.cpp", "src/diffpy/Attributes.cpp", "src/diffpy/HasClassRegistry.ipp", "src/diffpy/validators.hpp"],
 [("argument validation", "src/diffpy/validators.hpp and setters")])

prop("C18", "Structure differences, equality, hashing and cloning are faithful",
 "The reported difference of two structures names removed and added sites such that removing and adding them turns the first structure's atoms into the second's, and a fast update is offered only if cell, symmetry and kind agree. Equality is an equivalence consistent with hash values and a strict ordering of atoms, equal structures have an empty difference, and a clone equals its origin and is independent of later edits of either.",
 ["inputs", "histories"],
 "all pairs of structures of all adapter kinds, duplicates, permutations, signed zeros, subsets and unrelated structures",
 "Tests check a few hand-made pairs.",
 [S+"StructureDifference.cpp", S+"StructureAdapter.cpp", S+"AtomicStructureAdapter.cpp", S+"PeriodicStructureAdapter.cpp", S+"CrystalStructureAdapter.cpp", S+"NoMetaStructureAdapter.cpp", S+"NoSymmetryStructureAdapter.cpp", S+"R3linalg.cpp"],
 [("diff", S+"AtomicStructureAdapter.cpp diff and overrides"), ("hash/order", S+"AtomicStructureAdapter.cpp, R3linalg.cpp")])

prop("C19", "Peak shapes, widths, envelopes and baselines meet their contracts",
 "Peak profiles have unit area and the requested half width, and beyond their reported bounds they stay below the precision fraction of their maximum (cropped profiles are zero there and normalized within them); peak width models follow their formulas, and the width bound they report is never exceeded by any pair in the range for non-negative correlation parameters. Envelopes and baselines follow their formulas for all separations, combine multiplicatively, and every component created by name or cloned behaves like its origin.",
 ["inputs", "configurations"],
 "all widths, precisions, separations, displacement tensors, model parameters, component types and combinations",
 "Tests evaluate each formula at a few points with default parameters.",
 [S+"GaussianProfile.cpp", S+"CroppedGaussianProfile.cpp", S+"PeakProfile.cpp", S+"JeongPeakWidth.cpp", S+"DebyeWallerPeakWidth.cpp", S+"ConstantPeakWidth.cpp", S+"PDFEnvelope.cpp", S+"SphericalShapeEnvelope.cpp", S+"StepCutEnvelope.cpp", S+"QResolutionEnvelope.cpp", S+"ScaleEnvelope.cpp", S+"LinearBaseline.cpp", S+"ZeroBaseline.cpp"],
 [("formulas", "the listed files, operator()"), ("bounds", S+"*Profile.cpp xboundlo/xboundhi, *PeakWidth.cpp maxWidth")])

prop("C20", "Fourier transforms and band filtering satisfy their identities",
 "The sine transforms between real and reciprocal arrays equal the direct discrete sums on the documented grids for any array length and starting offset, are linear, and invert each other for signals within their range. Band-pass filtering removes exactly the components outside its Q limits, is linear, and is idempotent.",
 ["inputs", "configurations"],
 "all array lengths (incl. empty, one, non powers of two), steps, offsets and filter limits",
 "Tests transform one or two sine waves.",
 [S+"PDFUtils.cpp", S+"PDFUtils.ipp", S+"PDFUtils.hpp"],
 [("transforms", S+"PDFUtils.cpp fftgtof/fftftog"), ("filter", S+"PDFCalculator.cpp getExtendedPDF, DebyePDFCalculator.cpp getPDFAtQmin")])

prop("C21", "Structures imported from crystallography objects are faithful",
 "A crystal or molecule imported from the supported external crystallography library has the cell, symmetry images, occupancies, types, positions and displacement tensors of the source object, and pair enumeration and calculators on it agree with the same structure entered by hand. Wrappers that drop symmetry or metadata change only that aspect.",
 ["inputs", "configurations"],
 "all space groups, lattices, scatterer lists, isotropic and anisotropic displacements, molecules; wrapper combinations",
 "Tests check four fixed crystals and two molecules.",
 [S+"ObjCrystStructureAdapter.cpp", S+"NoSymmetryStructureAdapter.cpp", S+"NoMetaStructureAdapter.cpp"],
 [("import", S+"ObjCrystStructureAdapter.cpp")])

prop("C22", "Named attributes and class registries behave as declared",
 "Reading a named numeric attribute returns the value the object currently uses, writing it has the same effect as the dedicated setter, the listed names are exactly those that can be read (or written), read-only attributes reject writes, and unknown names are rejected. Component registries create independent objects of exactly the registered types, honour aliases and deregistration, and reject duplicates and unknown names.",
 ["histories", "configurations"],
 "all attribute-bearing classes, including attributes contributed by nested components that are replaced over time; all register/alias/deregister sequences",
 "Tests write and read one or two attributes per class.",
 ["src/diffpy/Attributes.cpp", "src/diffpy/Attributes.ipp", "src/diffpy/HasClassRegistry.ipp", S+"PDFCalculator.cpp", S+"DebyePDFCalculator.cpp", S+"PeakWidthModel.cpp", S+"PDFEnvelope.cpp"],
 [("attribute visitors", "src/diffpy/Attributes.cpp, accept() overloads"), ("registry", "src/diffpy/HasClassRegistry.ipp")])

prop("C23", "Change clock orders events consistently",
 "Change stamps are totally ordered consistently with the order in which changes happened: every new change is later than all earlier ones on any object, copying or taking over a stamp preserves its position, and combining never moves a stamp backwards. Restoring saved stamps in a process with any clock state preserves the relative order of the restored stamps, and changes made after restoring are later than every restored stamp.",
 ["histories", "crash_points"],
 "all interleavings of changes, copies, combinations, saves and restores over any number of stamps, in the same or another process with a younger or older clock",
 "Tests check a few comparisons and one serialization.",
 ["src/diffpy/EventTicker.cpp", "src/diffpy/EventTicker.hpp"],
 [("clock", "src/diffpy/EventTicker.cpp click/updateFrom"), ("restore", "src/diffpy/EventTicker.hpp serialize")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
for p in P:
    assert len(p["title"]) <= 80, p["id"]
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
