"""Regenerate known_findings.json: known findings (suppressed by key) and repaired defects (suppress nothing)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
KNOWN = [
    dict(property='C16', status='known', key='C16:PDFCalculator with electron scattering factors',
         what='PDFCalculator with the "electron" scattering factor table evaluates the factor at Q = 0, where it is DBL_MAX: '
              'RDF overflows to NaN and getF/getPDF abort in the assertion of fftgtof (PDFUtils.cpp)'),
]
FIXED = '''
54a9520 C03 filterCone dropped bonds exactly parallel to the cone axis (acos of a value rounded above 1)
039ab3c C04 atoms outside of the cell of a crystal without symmetry operations were not wrapped
c8a21b5 C04 equivalent positions on a special site were averaged across cell boundaries
6ac3a0a C03 position and Uij of the anchor atom in crystals did not match its pair vectors
4f7fafc C01 setStructure followed by eval with the OPTIMIZED evaluator kept the value of the previous structure
2fabb9e C17 evaluation after one that failed with an exception reused its partial value
3c30f59 C01 PQEvaluatorCheck used a tolerance scaled by a signed maximum
059e623 C12 calculators with PQEvaluatorCheck could not be saved
dceffcb C02 changed setupParallelRun reused the value of another share
1f7ec30 C04 in-place change of atoms or lattice kept cached symmetry positions
717a27d C18 fast update was offered between structures of different kinds
ae47422 C10 bond valence contributions ignored site multiplicities
501f8b6 C10 BVSCalculator ignored rmin
c737999 C10 lookup of bond valence parameters depended on the order of atoms
652245d C11 overlap gradients ignored occupancy and multiplicity
0a16bd0 C02 neighbors of overlapping atoms were not updated after merge of parallel data
377090e C12 neighbors of overlapping atoms were stale after restoring
a4bab0a C16 getRmaxUsed asserted after in-place edit of the structure
e5cf3dc C05 asind returned arc cosine
4abc306 C05 angle of parallel lattice vectors was not a number
a2f0be8 C17 rejected setLatBase left the lattice changed
09f7d64 C09 cached Debye scattering factors ignored site occupancies
961897c C16 getF read out of range after a change of the Q-grid
6489ceb C16 getPDFAtQmin read out of range at the end of the Fourier grid
6f93afc C01 Debye sum was not recalculated when its pair distance limits changed
2441368 C01 PDF was not recalculated when the calculated r-range extended
b1fb671 C16 getPDF cut out of range after a change of the r-range
ce8ef42 C17 setQmax that rejects its argument changed DebyePDFCalculator
79cd931 C02 incomplete overlap data were accepted in a merge
96b7f06 C07 masks of all pairs of two sites were not resolved in call order
b69b167 C07 all-type masks of two types were not resolved in call order
be7c2bd C07 type masks were lost when switching to pair masks before evaluation
f3aecd0 C14 failure in reading of standard data left partially loaded tables
03d1577 C19 maximum peak width ignored off-diagonal Uij
41269c7 C19 CroppedGaussianProfile of zero width was not a number
289e526 C09 Debye sum with electron factors was not finite at Q = 0
f7e1ff6 C01 PQEvaluatorCheck reported false differences of ineffective values
519812b C01 fast PDF update on an empty r-grid failed an assertion
e8d28ff C01 Debye sum was stale after a change of rstep that moves pair distance limits
d201292 C07 mask of all pairs of a site was not applied to sites added later
c27b71f C02 bonds of a single worker were not returned as parallel data
61c2010 C02 PQEvaluatorCheck compared partial values in parallel runs
8401866 C04 PairCounter ignored symmetry multiplicities
dc13532 C04 Uij of equivalent sites were rotated incorrectly in lattices of unlike axes
93b6629 C05 lattice base with a zero vector was accepted
007bdfc C06 copied PointsInSphere shared indices with its origin
7e028ad C06 PointsInSphere visited inner points when the lower bound hits a lattice point
f7df698 C20 sine transform of arrays with nonzero value at zero failed an assertion
43e249c C23 order of change stamps restored in another process was lost
0b364e2 C23 signed overflow at the rollover of the change clock
10a5e3f C22 scattering table stayed registered when its alias was refused
0a6aa4c C14 setting custom bond valence parameters to their current entry lost them
1b00d74 C14 failed reading of data files was not reported
7ca5682 C14 override scaled from zero scattering factor was not a number
49ea324 C18 equality of crystals ignored symmetry precision
4133cae C12 bonds of an unfinished merge were not saved
ee74185 C12 initial Q-step of a restored unused PDFCalculator was stale
b3c78b7 C13 pending pair distance limits of DebyePDFCalculator depended on reads
ac62ad2 C17 evaluation after a failed check evaluation reused the partial value
001f9bc C17 flipDiffMean accepted invalid indices in a structure with no atoms
137f63e C16 integer overflow in PointsInSphere for large lower bounds
cc2137f C16 integer overflow of grid indices for limits far beyond the grid
a6a1a45 C16 integer overflow of the grid index for extremely wide peaks
eec4bc0 C02 repeated parallel evaluation of bonds with the default evaluator sent only differences (lost bonds or assertion abort)
d21060d C01 CHECK evaluation of Debye sums threw for differences within the requested Debye precision
'''
fixed = []
for l in FIXED.strip().splitlines():
    h, p, w = l.split(' ', 2)
    fixed.append('fixed: property=%s %s %s' % (p, h, w))
with open(os.path.join(HERE, '..', 'known_findings.json'), 'w') as f:
    json.dump({'findings': KNOWN, 'fixed': fixed}, f, indent=1)
    f.write('\n')
