"""Per-property configuration: drivers, case counts, required monitors."""
from run import Group

PROPS = {}

def prop(pid, driver, quick, thorough, rule, technique, note, required=(), assumptions=(), extra=None,
         casetimeout=120, san_thorough=0, only=None):
    """a property decided by one driver; the thorough tier adds a sanitized run of the same driver"""
    def groups(tier):
        gs = [Group(driver, quick if tier == 'quick' else thorough, casetimeout=casetimeout)]
        if tier == 'thorough' and san_thorough:
            gs.append(Group(driver, san_thorough, variant='san', first=thorough, casetimeout=600, label=driver + '-san'))
        if extra:
            gs += extra(tier)
        return gs
    PROPS[pid] = dict(groups=groups, rule=rule, level='exploration', technique=technique, note=note,
                      required=list(required), assumptions=list(assumptions), only=only)

GEN = ('random structures: 0-6 (thorough 9) sites, cells 3-7 A (also needles, plates and skewed cells), '
       'generated closed symmetry groups up to 192 operations; floating point comparison within stated tolerances')

prop('C01', 'c01', 8000, 200000,
     'a case is one history of 4-10 steps (structure edits in place, new or replaced structures, configuration and mask '
     'changes, evaluator switches, repeated evaluations) of one calculator; after every evaluation all results are compared '
     'with a fresh calculator evaluated from scratch; distinct counts different (result, mask, configuration) triples',
     'runtime monitoring: online comparison of every incremental result with a from-scratch evaluation',
     'random histories; masks of the fresh calculator are read back from the monitored one (mask semantics are decided in C07)',
     required=['oracle incremental result against scratch', 'evaluated as OPTIMIZED', 'evaluated as CHECK',
               'incremental PDFCalculator', 'incremental DebyePDFCalculator', 'incremental BaseDebyeSum',
               'incremental BondCalculator', 'nonzero results'],
     assumptions=[GEN, 'the Debye calculator is compared at its own pair distance limit'], san_thorough=4000)

prop('C03', 'c03', 3200, 60000,
     'a case is one random structure (isolated, periodic or crystal) driven through a random sequence of range, anchor '
     'and site selections, every full iteration being compared with an independent brute-force image search; distinct '
     'counts different (structure, anchor, range) iterations and bond lists',
     'runtime monitoring: shadow brute-force pair enumeration compared with every observed iteration',
     'random structures, ranges, selections and cone filters; bounds are kept 2e-6 A off pair lengths except in exact integer cases',
     required=['oracle iteration compared with brute force', 'oracle bond list compared with brute force',
               'oracle exact bounds', 'oracle pair count', 'nonempty atomic', 'nonempty periodic', 'nonempty crystal',
               'bond lists with cone filters'],
     assumptions=[GEN], san_thorough=3000)

prop('C08', 'c08', 10000, 200000,
     'a case is one random structure with one random PDFCalculator configuration; all grids, RDF, RDF/r, F and PDF arrays '
     'are compared point by point with a brute-force pair sum followed by direct sine sums; distinct counts different '
     '(reference RDF, configuration) pairs; cases where rounding decides a grid size are counted and skipped',
     'runtime monitoring: reference pair sum and direct sine transforms compared with every returned array',
     'random configurations of range, Q limits, width models, profiles, baselines, envelopes, scattering tables and masks',
     required=['oracle RDF against definition', 'oracle PDF against definition', 'oracle F against direct sine sum',
               'oracle r-range independence', 'nonzero atomic', 'nonzero periodic', 'nonzero crystal', 'nonzero masked',
               'cases with band limits'],
     assumptions=[GEN], san_thorough=4000)

prop('C09', 'c09', 9000, 150000,
     'a case is one random structure with one random DebyePDFCalculator (or BaseDebyeSum) configuration; F(Q), Q and r grids, '
     'pair distance limits and the PDF arrays are compared point by point with a direct Debye sum and direct sine transforms; '
     'distinct counts different (reference F, configuration) pairs',
     'runtime monitoring: reference Debye sum and direct sine transform compared with every returned array',
     'random ranges, Q grids, width models, envelopes, scattering tables (including electron) and masks; the tolerance '
     'equals the neglected terms at or below the Debye precision',
     required=['oracle F(Q) against the Debye sum', 'oracle F(Q) of the base sum',
               'oracle PDF against direct sine transform', 'nonzero atomic', 'nonzero periodic', 'nonzero crystal',
               'nonzero masked', 'PDF with Qmin', 'custom qstep', 'base sum with Qmin'],
     assumptions=[GEN], san_thorough=3000)

prop('C10', 'c10', 20000, 400000,
     'a case is one random structure of ions with a random parameter table (custom entries, valence overrides), range, '
     'precision and mask; sums, expected valences, differences and deviations are compared with a brute-force sum over '
     'neighbours using an independently parsed parameter file; distinct counts different non-zero (structure, sums)',
     'runtime monitoring: reference bond valence sum and independently parsed parameter table compared with every result',
     'random ions, cells, custom parameters and lookups in both orders',
     required=['oracle valence sums against definition', 'oracle parameter lookup', 'parameter lookups found',
               'nonzero atomic', 'nonzero periodic', 'nonzero crystal', 'nonzero masked', 'nonzero with custom parameters'],
     assumptions=[GEN], san_thorough=5000)

prop('C11', 'c11', 20000, 400000,
     'a case is one random structure with random radii, range and mask; overlap lists, totals, coordinations, neighbours and '
     'neighbourhoods are compared with brute force, flip predictions with re-evaluation of the flipped structure and '
     'gradients with central differences; distinct counts different non-zero (structure, site overlaps)',
     'runtime monitoring: brute-force overlap analysis and finite differences compared with every result',
     'pair separations within 2e-6 of a radii sum are skipped; gradients of crystals are checked for general positions',
     required=['oracle overlap analysis against brute force', 'oracle flip of two atoms',
               'oracle gradient against finite difference', 'nonzero atomic', 'nonzero periodic', 'nonzero crystal',
               'nonzero masked', 'nonzero gradients', 'flips with nonzero change'],
     assumptions=[GEN], san_thorough=5000)

prop('C07', 'c07', 24000, 400000,
     'a case is one random sequence of mask operations (site pairs, site wildcards, type pairs, type wildcards, all pairs, '
     'inversion) interleaved with structure assignments on one calculator; the reported masks are compared with a replay of '
     'the operations in order and the results with an explicit pair mask and with brute force; distinct counts different '
     '(operation sequence, mask, result)',
     'runtime monitoring: online replay of the mask operations compared with reported masks and with summed pairs',
     'random histories on all calculators; the model mask applies the latest operation that selects the pair',
     required=['oracle reported masks', 'oracle calculator with mask against explicit pair mask',
               'oracle unmasked pairs against brute force', 'type masks checked', 'pairs reported as masked',
               'nonzero masked PDFCalculator', 'nonzero masked DebyePDFCalculator', 'nonzero masked BondCalculator',
               'nonzero masked BVSCalculator', 'nonzero masked OverlapCalculator', 'nonzero masked PairCounter'],
     assumptions=[GEN], san_thorough=6000)

prop('C02', 'c02', 14000, 250000,
     'a case is 1-3 rounds of evaluating one calculator on a random structure with random configuration and masks split '
     'over 1-43 workers (fresh, restored from saved state, one reused or persistent ones, in-process or in processes of '
     'their own), evaluated and merged in random order with malformed data injected in between; merged results are compared '
     'with a serial evaluation; distinct counts different (result, worker count, worker style)',
     'runtime monitoring: merged results compared with serial evaluation, fault injection of malformed partial data',
     'worker counts 1-43 on 0-40 sites, random merge orders; workers of one sum share the same history',
     required=['oracle merged result against serial', 'oracle malformed data refused', 'oracle extra merge refused',
               'oracle invalid worker setup refused', 'oracle serial evaluation after parallel', 'more workers than sites',
               'outer loop splits', 'rounds in separate processes', 'nonzero PDFCalculator', 'nonzero DebyePDFCalculator',
               'nonzero BondCalculator', 'nonzero BVSCalculator', 'nonzero OverlapCalculator', 'nonzero PairCounter'],
     assumptions=[GEN], san_thorough=5000)

prop('C04', 'c04', 10000, 200000,
     'a case is one random crystal (asymmetric unit, closed symmetry group, special positions, sites outside of the cell) '
     'followed through 0-4 edits (atoms, lattice, operations, tolerance, equivalent re-descriptions); multiplicities, '
     'equivalent positions, tensors, densities and the results of one calculator are compared with the explicit expansion of '
     'the cell; distinct counts different (results, configuration) pairs',
     'runtime monitoring: results on the symmetry description compared with an independent explicit expansion',
     'generated groups up to 192 operations; displacements obey site symmetry; sites are exactly special, within 0.05 of the '
     'tolerance, or beyond 20 tolerances',
     required=['oracle symmetry sites against expansion', 'oracle calculator against expansion', 'special positions',
               'sites just off symmetry elements', 'edits', 'nonzero PDFCalculator', 'nonzero DebyePDFCalculator',
               'nonzero BondCalculator', 'nonzero BVSCalculator', 'nonzero OverlapCalculator', 'nonzero PairCounter'],
     assumptions=[GEN], san_thorough=3000)

prop('C15', 'c15', 22000, 250000,
     'a case is one random structure, configuration and mask on one calculator evaluated for 1-3 chained equivalent '
     'descriptions (rotation, translation, reordering, lattice vectors, lattice basis, split sites, supercell); all results '
     'are compared with permuted and rotated originals; distinct counts different (results, transformation) pairs',
     'runtime monitoring: metamorphic oracle over equivalent descriptions of one structure',
     'rotations of non-periodic clusters, unimodular basis changes with base components up to 4, supercells up to 3x2x3, '
     'relative tolerance 1e-6; PDF margin dependent arrays are compared when margins agree',
     required=['oracle result of an equivalent description', 'transformed: rotated', 'transformed: translated',
               'transformed: reordered', 'transformed: lattice', 'transformed: basis', 'transformed: split',
               'transformed: supercell', 'nonzero PDFCalculator', 'nonzero DebyePDFCalculator', 'nonzero BondCalculator',
               'nonzero BVSCalculator', 'nonzero OverlapCalculator', 'nonzero PairCounter'],
     assumptions=[GEN], san_thorough=3000)

prop('C05', 'c05', 200000, 4000000,
     'a case is one Lattice object brought through 1-4 random changes of cell parameters and base vectors with rejected '
     'changes in between, plus 12 random or special angles; all parameters, vectors, tensors and conversions are compared '
     'with long double evaluation of their definitions; distinct counts different cells',
     'runtime monitoring: online comparison of every geometric query with its long double definition',
     'cells with normalized volume above 0.05 and edges 0.01-1000; tolerance scales with the inverse squared normalized volume',
     required=['oracle linear algebra', 'oracle cell parameters', 'oracle vector operations', 'oracle displacement tensors', 'oracle reciprocal of reciprocal',
               'oracle trigonometric helpers', 'cells from parameters', 'cells from base vectors', 'rejected bases',
               'angles of parallel vectors', 'exact angles', 'integer vectors'],
     assumptions=['reference geometry is evaluated in long double from the same cell parameters'], san_thorough=100000)

prop('C06', 'c06', 140000, 2500000,
     'a case is one random cell and range enumerated 1-3 times with restarts, partial iterations and copies; visited '
     'triplets, distances and spacings are compared with exhaustive enumeration of a bounding box; distinct counts different '
     '(cell, point count)',
     'runtime monitoring: visited lattice points and reflections compared with exhaustive enumeration',
     'up to 30000 points per range; points within 1e-9 of a bound are not judged (decided by rounding)',
     required=['oracle lattice points against enumeration', 'oracle reflections against enumeration', 'restarts', 'copies',
               'nonempty shells', 'nonempty reflection ranges', 'ranges of d'],
     assumptions=['cells with normalized volume above 0.05'], san_thorough=60000)

prop('C20', 'c20', 30000, 600000,
     'a case is one random signal (noise, spike, wave, constant, wide magnitudes) of arbitrary length, step and offset sent '
     'through both sine transforms, or one random band and r-range with arbitrary signals injected in place of the baseline of '
     'PDFCalculator, or one DebyePDFCalculator with Qmin; outputs are compared with direct sine sums; distinct counts '
     'different (output, limits)',
     'runtime monitoring: direct long double sine sums and algebraic identities compared with every transformed array',
     'arrays up to 700 (thorough 3000) points; band limits are kept off the Q-grid points (decided by rounding)',
     required=['oracle transform against direct sum', 'oracle linearity', 'oracle inversion', 'empty arrays', 'with offset',
               'full power of two', 'oracle band filter against direct sums', 'oracle band filter linearity',
               'oracle band filter idempotence', 'oracle complementary bands', 'oracle Debye PDF against sine sum of F',
               'filtered signals'],
     assumptions=['offsets are not negative'], san_thorough=20000)

prop('C19', 'c19', 60000, 1500000,
     'a case is one random component: a peak profile over several precisions and widths, a width model over all pairs of a '
     'random structure and range, an envelope collection under random additions and removals, or a baseline; values, areas, '
     'half widths, bounds and combinations are compared with long double formulas; distinct counts different settings and results',
     'runtime monitoring: formula oracles, numeric integration and bound assertions on every observed value',
     'correlation parameters are not negative; areas by Simpson integration (2e-7)',
     required=['oracle profile against formula', 'oracle unit area', 'oracle half width', 'oracle profile clone',
               'zero-width profiles', 'oracle peak widths', 'nonzero widths constant', 'nonzero widths debye-waller',
               'nonzero widths jeong', 'oracle width model clone', 'oracle envelope against formula',
               'oracle combined envelopes', 'oracle baseline against formula'],
     assumptions=[GEN], san_thorough=20000)

prop('C23', 'c23', 80000, 1500000,
     'a case is one history of 30-60 clock operations (click, copy, assign, take over, save and restore in the same process, '
     'restore of archives saved by a forked process with a clock ahead), or archives of clocks close to rollover restored in a '
     'forked process, or changes of all objects that carry stamps; all known orders are compared with a shadow event log; '
     'distinct counts different histories',
     'runtime monitoring: offline order oracle (shadow event log) over recorded stamps, across processes',
     'processes are forked so that the saving clock is ahead of, equal to or behind the restoring one',
     required=['oracle order of stamps', 'oracle stamps restored in another process', 'stamps restored from another process',
               'restored in the same process', 'oracle clock close to rollover', 'oracle stamps of objects',
               'changes of PDFCalculator', 'changes of DebyePDFCalculator', 'changes of BVSCalculator', 'changes of PairCounter',
               'changes of sftable', 'changes of jeong', 'changes of profile'],
     assumptions=['stamps of different processes have no defined order before they are restored'], san_thorough=20000)

prop('C22', 'c22', 80000, 1500000,
     'a case is one sequence of attribute reads, writes, rejected values and unknown names on a pair of equal components or '
     'calculators (one written by attribute, the other by its setter), with component replacements, or one history of registry '
     'operations (register, alias, deregister, create) of a component registry; distinct counts different histories',
     'runtime monitoring: attribute values against direct accessors of every owner, twin objects changed by setters, registry '
     'against a shadow map after every operation',
     'user-defined types and aliases are drawn from 7 names; results are compared after a part of the writes',
     required=['oracle attributes against accessors', 'oracle attribute write against setter',
               'oracle read-only attribute rejected', 'oracle unknown attribute rejected', 'oracle user component attributes',
               'oracle results after attribute writes', 'oracle registry against shadow map', 'duplicate registrations',
               'rejected aliases', 'deregistrations', 'components replaced', 'rejected values'],
     assumptions=[GEN], san_thorough=10000)

prop('C14', 'c14', 60000, 1200000,
     'a case is 12 random symbols (elements, ions, isotopes, unknown) looked up in all four scattering tables at random Q, or one '
     'history of overrides over several copied, restored and created tables, or one history of radii or bond valence parameter '
     'changes, or one fresh process in which data files are missing, unreadable or malformed and later repaired between '
     'lookups; distinct counts different (symbol, table, Q) and histories',
     'runtime monitoring: every answer compared with an independent reader of the data files and shadow maps of overrides; '
     'fault injection on data files in executed child processes',
     'files are broken by removal, replacement by a directory (fails on read), and malformed lines',
     required=['oracle value against data file', 'oracle unknown symbol rejected', 'oracle overrides against shadow map',
               'oracle radii against shadow map', 'oracle bond valence parameters against shadow map',
               'oracle unreadable data files', 'reported failures of data files', 'lookups after repair', 'overrides removed',
               'rejected overrides', 'rejected radii', 'copied tables', 'ions', 'isotopes', 'whole tables compared'],
     assumptions=['shipped data files define the values'], san_thorough=8000)

prop('C18', 'c18', 40000, 1200000,
     'a case is a family of atoms differing by one field (compared pairwise and in triples), or a chain of 4-8 related structures '
     '(edited, permuted, re-framed, wrapped, cloned, restored) compared pairwise; differences of each pair are applied to the '
     'atoms of the first one; distinct counts different differences',
     'runtime monitoring: multiset oracle on applied differences, algebraic laws of order/equality/hash on every compared '
     'pair and triple, shadow states of clones under later edits',
     'structures up to about 60 atoms; wrappers nometa and nosymmetry in both orders',
     required=['oracle order and equality of atoms', 'oracle difference applied to atoms', 'oracle clones and later edits',
               'equal atoms', 'equal structures', 'fast updates offered', 'partial differences', 'sorted differences',
               'side by side differences'],
     assumptions=[GEN], san_thorough=10000)

prop('C12', 'c12', 18000, 500000,
     'a case is one history of a calculator (structures, in-place edits, settings, masks, shared components, evaluators) saved at '
     'a random point by pointer or by value and restored in the same process or in a forked one with a clock ahead or behind, '
     'then continued in both with the same random steps; or a parallel merge interrupted by a save; or a component, lattice or '
     'structure saved, restored and continued; distinct counts different (configuration, results) reports',
     'runtime monitoring: complete reports (configuration, masks, structure, all results) of original and restored objects '
     'compared after every step, across processes',
     'continuations of up to 5 (thorough 8) steps; archives of the same build',
     required=['oracle restored in the same process', 'oracle restored in another process', 'oracle saved in another process',
               'oracle merging continued after restoring', 'oracle original after saving', 'oracle restored components',
               'oracle restored structures', 'saved BVSCalculator', 'saved BondCalculator', 'saved DebyePDFCalculator',
               'saved OverlapCalculator', 'saved PDFCalculator', 'saved PairCounter', 'nonzero results compared',
               'wrapped structures 1', 'components bond valence table', 'components radii table', 'components lattice'],
     assumptions=[GEN], san_thorough=5000)

prop('C13', 'c13', 14000, 400000,
     'a case is one history of a calculator: 3-12 steps of setting changes (direct, by attribute, of components shared with another '
     'calculator or replaced), masks, structure replacement and in-place edits, evaluations and result reads in any order; every '
     'result is compared with a fresh calculator of the same final settings, and the history with all reads is repeated '
     'without them; distinct counts different (configuration, results)',
     'runtime monitoring: oracle by a fresh calculator configured from a shadow record of the settings; differential replay of '
     'the same history with and without interleaved reads',
     'histories up to 12 evaluations; comparison of replays ends when reads made the Debye calculator retain a different upper '
     'distance limit (permitted by the statement, differences are bounded by 50 steps)',
     required=['oracle results against a fresh calculator', 'oracle history with and without reads', 'components shared',
               'reads in between', 'Debye range limits matched', 'nonzero BVSCalculator', 'nonzero BondCalculator',
               'nonzero DebyePDFCalculator', 'nonzero OverlapCalculator', 'nonzero PDFCalculator', 'nonzero PairCounter'],
     assumptions=[GEN], san_thorough=5000)

prop('C17', 'c17', 30000, 800000,
     'a case is one history of two equal calculators (settings, masks, structure edits, evaluations) where one of them also gets '
     'rejected calls (setters, attributes, factories, components, parsers, merges) and evaluations that fail in their course '
     '(unknown atom type, user component or structure that throws at a random call), or a merge with rejected parts in between, '
     'or rejected input of lattices, tables and parameters; distinct counts different (result sets, rejected calls)',
     'runtime monitoring: complete reported state before and after every rejected call, twin object without the rejected calls '
     'after every later step, fresh calculator after failed evaluations; fault injection by user components',
     'invalid values are those documented or validated in headers (negative, non-positive, null, unknown name, bad index, '
     'malformed text, size mismatch); not a number is not used',
     required=['oracle state after rejected call', 'oracle twin without rejected calls', 'oracle failed evaluation',
               'oracle fresh calculator after failed evaluation', 'oracle merging with rejected data', 'oracle rejected partial data',
               'oracle lattice after rejected base', 'oracle radii after rejected string', 'oracle parameters after rejected line',
               'oracle table after rejected symbol', 'oracle ambiguous attribute', 'oracle refused split',
               'failed evaluations PDFCalculator', 'failed evaluations DebyePDFCalculator', 'failed evaluations BVSCalculator',
               'failed evaluations BondCalculator', 'failed evaluations OverlapCalculator', 'failed evaluations PairCounter',
               'failed evaluations by fault 0', 'failed evaluations by fault 1', 'failed evaluations by fault 2',
               'failed evaluations by fault 3', 'nonzero PDFCalculator', 'nonzero DebyePDFCalculator'],
     assumptions=[GEN], san_thorough=8000)

prop('C21', 'c21', 20000, 500000,
     'a case is one random ObjCryst crystal (any space group or setting, shared isotropic and anisotropic scattering powers, '
     'dummy atoms, molecules) or molecule imported and compared with its by-hand model, with the symmetry operations and images '
     'the source library reports, in pairs and calculators; or a random stack of wrappers (cloned, restored, over edited '
     'structures with custom calculator configuration) compared with the plain model of the same content; distinct counts '
     'different (structure, results)',
     'runtime monitoring: images reported by the source library and an independent by-hand model are the oracle for every '
     'imported site, symmetry operation, pair and calculator result',
     'cells up to 7 A; positions of molecules inside crystals are taken from the source library',
     required=['oracle imported crystal', 'oracle symmetry operations', 'oracle symmetry images', 'oracle pair enumeration',
               'oracle calculator on imported structure', 'oracle imported molecule', 'oracle wrapped structure',
               'oracle custom configuration of wrapped structure', 'dummy atoms', 'molecules in crystals', 'groups P1',
               'groups small', 'groups medium', 'groups large', 'nonzero PDFCalculator', 'nonzero BVSCalculator',
               'wrapped nonzero PDFCalculator'],
     assumptions=[GEN], san_thorough=4000)

VALGRIND = ['valgrind', '-q', '--error-exitcode=99', '--leak-check=no', '--track-origins=no', '--expensive-definedness-checks=yes']
# cases per driver under the address and undefined behaviour sanitizers (quick tier)
SANCASES = dict(c01=441, c02=588, c03=196, c04=343, c05=9800, c06=7839, c07=979, c08=588, c09=489, c10=1176, c11=784,
                c12=735, c13=588, c14=2450, c15=1176, c17=1959, c18=2450, c19=3919, c20=1959, c21=1176, c22=4900, c23=4900)
VGCASES = dict(c01=6, c02=6, c03=6, c04=6, c05=26, c06=84, c07=26, c08=6, c09=6, c10=26, c11=19, c12=9, c13=9, c14=26,
               c15=13, c17=19, c18=39, c19=67, c20=13, c21=13, c22=100, c23=100)

def c16groups(tier):
    k = 1 if tier == 'quick' else 9
    gs = [Group('c16', 9000 * k, variant='san', label='c16-san')]
    for d in sorted(SANCASES):
        gs.append(Group(d, SANCASES[d] * k, variant='san', label=d + '-san', casetimeout=240))
    gs.append(Group('c16', 72 * k, variant='vg', wrap=VALGRIND, label='c16-vg', casetimeout=600))
    for d in sorted(VGCASES):
        gs.append(Group(d, VGCASES[d] * k, variant='vg', wrap=VALGRIND, label=d + '-vg', casetimeout=600))
    return gs

prop('C16', 'c16', 16000, 400000,
     'a case is one random program of 5-30 public calls over structures of all kinds, bond generators, lattices, calculators and '
     'their components with boundary sizes and extreme, aliased or malformed arguments; it runs in a build with library and '
     'container assertions, then other programs run in a build with address, leak and undefined behaviour sanitizers and under '
     'valgrind, and so do samples of the workloads of all other checks; distinct counts different programs and results',
     'runtime monitoring: AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer, Valgrind memcheck, libstdc++ and library '
     'assertions observing random programs and the workloads of all other checks',
     'quick runs a sample of the sanitized workloads; grids stay below 20000 points; only sanitizer reports, crashes, hangs and '
     'failed assertions count here',
     required=['oracle random program', 'evaluations of calculators', 'result sweeps', 'bond steps', 'lattice points'],
     assumptions=['memory errors inside the uninstrumented GSL, boost and ObjCryst libraries are observed only by valgrind',
                  'arguments that are not a number are not used; grids stay within memory',
                  'results that refer to sites are read only while the structure keeps the sites it had when evaluated'],
     extra=c16groups, casetimeout=240, only='^(crash|hang|leak|valgrind|C16:)')
