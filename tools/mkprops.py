#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that wording stays reviewable)."""
import json, os
S = 'src/diffpy/srreal/'
P = []
def prop(id, title, statement, over, qtext, why, files, state, mech):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(qtext.split())), why_tests_cant=' '.join(why.split()),
        anchors=dict(files=files, state=[dict(name=x, where=files[0]) for x in state],
            mechanism=[dict(name=n, where=w) for n, w in mech])))

prop('C01', 'Fast updates never serve sums accumulated under older settings',
 '''After any change of a setting that influences a pair sum (distance range, grid, precision, filters,
 atom-pair masks, peak-width or peak-profile parameters, custom scattering factors) the next evaluation gives the result that a full recalculation under the current settings gives.  No sequence of setting changes
 and evaluations lets an incremental update reuse sums from before the change.''',
 ['histories', 'inputs'], 'every setting of every calculator and helper model, every value, every interleaving with evaluations',
 '''a test evaluates a handful of settings in one order; staleness needs the one setter, branch or value for which
 the change is not recorded, followed by an incremental update''',
 [S+'PairQuantity.cpp', S+'PDFCalculator.cpp', S+'BaseDebyeSum.cpp', S+'DebyePDFCalculator.cpp', S+'BondCalculator.cpp',
  S+'JeongPeakWidth.cpp', S+'DebyeWallerPeakWidth.cpp', S+'ConstantPeakWidth.cpp', S+'PeakProfile.cpp', S+'ScatteringFactorTable.cpp'],
 ['modification ticker of calculators and helper models', 'settings read while accumulating pair contributions'],
 [('tickers clicked by setters', S+'PairQuantity.cpp: setRmin, setRmax, setPairMask, setTypeMask, maskAllPairs, invertMask'),
  ('comparison of tickers', S+'PQEvaluator.cpp: PQEvaluatorOptimized::updateValue')])

prop('C02', 'Changes made in attached helper models reach the calculator',
 '''A calculator that supports incremental evaluation sees every modification of the peak-width model, peak profile
 and scattering-factor table it uses, no matter through which handle they are modified and whenever they are replaced through the calculator: its modification
 record is never older than that of any model it consults while summing pairs.''',
 ['histories', 'programs'], 'every calculator class, every attached helper model, every sequence of modifications through shared handles',
 '''tests modify one model at a time through one handle; the guarantee covers every model a calculator consults, including
 models and calculators added later''',
 [S+'PDFCalculator.cpp', S+'BaseDebyeSum.cpp', S+'DebyePDFCalculator.cpp', S+'PeakWidthModel.cpp', S+'ScatteringFactorTable.cpp'],
 ['ticker() results', 'owned helper models'],
 [('ticker aggregation', S+'PDFCalculator.cpp: PDFCalculator::ticker; BaseDebyeSum::ticker; DebyePDFCalculator::ticker'),
  ('owner tickers', S+'PeakWidthModel.cpp: PeakWidthModelOwner::ticker; ScatteringFactorTable.cpp: ScatteringFactorTableOwner::ticker')])

prop('C03', 'Saving and loading restores the complete state of an object',
 '''An object loaded from an archive behaves as the saved one: every part of its state, including state inherited from
 parent classes, is stored and is read back in the same order into the same place, and any cached data is either restored
 together with its validity mark or marked for rebuilding.''',
 ['inputs', 'histories', 'programs'], 'every serializable class, every value of each of its data, every point in its history at which it is saved',
 '''tests save objects in a default or one modified state and compare a few getters; a lost member shows only when it has a
 non-default value and is used after loading''',
 [S+'PairQuantity.hpp', S+'PDFCalculator.hpp', S+'OverlapCalculator.hpp', S+'PQEvaluator.hpp', S+'CrystalStructureAdapter.hpp', S+'Lattice.hpp',
  S+'ScatteringFactorTable.hpp', 'src/diffpy/EventTicker.hpp'],
 ['all data members of serializable classes'],
 [('serialize / save / load members', 'every serialize template in src/diffpy')])

prop('C04', 'Every concrete polymorphic type can be archived through a base handle',
 '''Any object that users can reach through a handle to its base type (calculators, evaluators, structures, models, tables)
 can be saved and loaded through that handle without an error about an unknown type, for every concrete type the library defines.''',
 ['programs', 'configurations'], 'every concrete polymorphic type the library can create, every handle that may hold it',
 'tests archive selected types only; the type that is not registered fails at run time for the user who archives it',
 [S+'PQEvaluator.hpp', S+'PQEvaluator.cpp', S+'BVSCalculator.cpp', S+'ZeroBaseline.cpp', S+'EmptyStructureAdapter.cpp'],
 ['class export registrations'],
 [('export macros', 'BOOST_CLASS_EXPORT_KEY / BOOST_CLASS_EXPORT_IMPLEMENT / DIFFPY_INSTANTIATE_SERIALIZATION in each class file')])

prop('C05', 'Clones and registry products have the right type and complete state',
 '''Cloning an object gives an object of the same concrete type with all of its state, creating by type name gives a fresh object of
 exactly the type registered under that name, and every concrete model type of the library is available in its registry under a
 unique name that it also reports as its type.''',
 ['inputs', 'programs'], 'every class with virtual copy or registry construction, every state of the cloned object',
 '''tests clone a few classes with default values; a wrong type or a forgotten member shows only for the class and the member concerned''',
 ['src/diffpy/HasClassRegistry.hpp', 'src/diffpy/HasClassRegistry.ipp', S+'GaussianProfile.cpp', S+'CroppedGaussianProfile.cpp', S+'CrystalStructureAdapter.cpp',
  S+'PDFEnvelope.cpp', S+'SphericalShapeEnvelope.cpp', S+'NoMetaStructureAdapter.cpp'],
 ['class registries', 'data members copied by clone'],
 [('virtual constructors', 'create, clone and type methods of each model class'), ('registration', 'registerThisType calls'), ('registry', 'src/diffpy/HasClassRegistry.ipp')])

prop('C06', 'Comparison and change detection see every structural attribute',
 '''Two atoms, symmetry operations, lattices, bond parameters or structures compare equal only if all of their defining attributes are equal,
 inequality is the exact negation of equality, ordering and hashing are consistent with equality, and the difference
 reported between two structures is empty or restricted to some sites only if everything else that defines the structures is the same.''',
 ['inputs'], 'every pair of objects of the compared types, in particular pairs that differ in exactly one attribute',
 '''tests compare objects that differ in one or two attributes; an overlooked attribute needs a pair of structures that differs only there''',
 [S+'AtomicStructureAdapter.cpp', S+'PeriodicStructureAdapter.cpp', S+'CrystalStructureAdapter.cpp', S+'Lattice.cpp', S+'BVParam.cpp', S+'StructureDifference.cpp', 'src/diffpy/EventTicker.cpp'],
 ['attributes of atoms, symmetry operations, lattices, bond parameters and structures'],
 [('equality, order and hash operators', S+'AtomicStructureAdapter.cpp, CrystalStructureAdapter.cpp, BVParam.cpp'), ('diff overrides', S+'AtomicStructureAdapter.cpp, PeriodicStructureAdapter.cpp, CrystalStructureAdapter.cpp')])

prop('C07', 'Named attributes read and write the setting they are named for',
 '''Setting a named attribute has the same effect as the dedicated setter and reading it returns the value of the dedicated getter of the same
 setting; every setting registered by an object or by a model it owns is reachable by name from the owning calculator, for reading constant and
 modifiable objects alike, and an attribute registered without a setter rejects changes.''',
 ['inputs', 'programs'], 'every registered attribute of every class and every owner of attribute-bearing models',
 '''tests access a sample of attribute names; a swapped accessor or an owned model missing from the traversal affects the remaining ones''',
 ['src/diffpy/Attributes.hpp', 'src/diffpy/Attributes.cpp', 'src/diffpy/Attributes.ipp', S+'PDFCalculator.cpp', S+'DebyePDFCalculator.cpp', S+'BaseDebyeSum.cpp', S+'JeongPeakWidth.cpp'],
 ['attribute registries'],
 [('registerDoubleAttribute calls', 'constructors of attribute-bearing classes'), ('visitor traversal', 'accept overrides of calculators')])

prop('C08', 'Interrupted or reconfigured fast updates never corrupt later results',
 '''If an evaluation fails part-way, if the value is reset outside an evaluation, or if the split of work among processes changes, the following
 evaluation still gives the result of a full calculation: accumulated sums are reused only when they completely and exactly represent the structure
 they are attributed to.''',
 ['histories', 'fault_sequences'], 'every point at which an evaluation can fail, every call that resets the value, every order of such events',
 '''a test would have to inject a failure at each call inside the update and evaluate again; the existing ones never fail an evaluation''',
 [S+'PQEvaluator.cpp', S+'PairQuantity.cpp', S+'PDFCalculator.cpp', S+'BondCalculator.cpp'],
 ['structure remembered from the last evaluation', 'time mark of the last value', 'partially accumulated value'],
 [('update protocol', S+'PQEvaluator.cpp: PQEvaluatorOptimized::updateValue, PQEvaluatorBasic::updateValue'), ('reset', S+'PairQuantity.cpp: setStructure, setupParallelRun')])

prop('C09', 'Every pair contribution honors the pair mask and the work split',
 '''Each pair contribution that enters or leaves a sum, in full and in incremental evaluation, is conditional on the pair mask of exactly that pair of sites
 and on the work split of the configured parallel run, and is weighted by one for a self pair or a full sum and by two otherwise.''',
 ['inputs', 'configurations'], 'every structure, mask, summation mode, evaluator and number of processes',
 '''tests use a few masks and splits; an unguarded contribution shows only for a mask or a split that excludes it''',
 [S+'PQEvaluator.cpp', S+'PairQuantity.cpp'],
 ['pair mask', 'CPU index and count', 'summation scale'],
 [('summation loops', S+'PQEvaluator.cpp: updateValue of PQEvaluatorBasic and PQEvaluatorOptimized')])

prop('C10', 'Accumulated results are reset, merged and carried over completely',
 '''Everything a calculator accumulates from pair contributions is cleared when its value is reset, included in the data exchanged by parallel runs and merged back,
 and carried over by an incremental update; each contribution is proportional to its weight so that removing a pair exactly cancels adding it.''',
 ['inputs', 'histories', 'configurations'], 'every calculator class, every accumulated datum, every order of evaluation, merge and incremental update',
 '''tests check single evaluations of selected calculators; leftovers show only after a second evaluation, a merge or a removal of a site''',
 [S+'PDFCalculator.cpp', S+'BaseDebyeSum.cpp', S+'BondCalculator.cpp', S+'BVSCalculator.cpp', S+'OverlapCalculator.cpp', S+'PairCounter.hpp', S+'PairQuantity.cpp'],
 ['data written by pair contributions'],
 [('accumulation', 'addPairContribution overrides'), ('reset', 'resetValue overrides'), ('merge', 'getParallelData and executeParallelMerge overrides'), ('carry-over', 'stashPartialValue and restorePartialValue overrides')])

prop('C11', 'Derived data never outlives the data it was derived from',
 '''Every quantity that is computed from settings or results and kept (lattice vectors and reciprocal quantities, symmetry-expanded positions, extended distance limits,
 neighbor lists, profile bounds) is recomputed or marked for recomputation whenever any of its sources changes, and no such quantity is used while it is
 marked as outdated.''',
 ['histories', 'inputs'], 'every derived quantity, every operation that changes one of its sources, every order of changes and queries',
 '''stale derived data needs a specific change followed by a specific query; tests exercise few of these orders''',
 [S+'Lattice.cpp', S+'CrystalStructureAdapter.cpp', S+'DebyePDFCalculator.cpp', S+'OverlapCalculator.cpp', S+'GaussianProfile.cpp', S+'CroppedGaussianProfile.cpp', S+'PDFCalculator.cpp'],
 ['cached and derived data members'],
 [('validity flags', 'msymmetry_cached, mrlimits_are_cached, mneighborids_cached'), ('eager recomputation', S+'Lattice.cpp: setLatPar, setLatBase; setPrecision overrides of profiles')])

prop('C12', 'A rejected setting raises an error and leaves the object unchanged',
 '''Whenever a configuration call is rejected with an error (negative range, non-positive step, null model, unknown type name, invalid process count, malformed text),
 the object keeps exactly the state it had before the call, and values documented as invalid are always rejected before they can be used.''',
 ['inputs', 'fault_sequences'], 'every configuration operation that can fail, every rejected argument',
 '''tests assert that an error is raised for an example value but not that all state is unchanged nor that every entry point validates''',
 [S+'PDFCalculator.cpp', S+'BaseDebyeSum.cpp', S+'DebyePDFCalculator.cpp', S+'BVSCalculator.cpp', S+'OverlapCalculator.cpp', S+'PeakWidthModel.cpp', S+'ScatteringFactorTable.cpp',
  S+'PQEvaluator.cpp', S+'Lattice.cpp', 'src/diffpy/validators.hpp'],
 ['data members written by configuration methods'],
 [('validators', 'src/diffpy/validators.hpp'), ('validated setters', 'set* methods of calculators, owners, evaluators and Lattice')])

prop('C13', 'Reference data are used only after they were loaded completely',
 '''Scattering factors, neutron lengths, electron numbers and bond-valence parameters come either from completely loaded reference files or the request fails with
 an error; a failed load is never remembered as a success, so a later request fails again or loads the data anew.''',
 ['fault_sequences', 'inputs'], 'every failure while locating, opening or parsing each reference file, every sequence of later requests',
 '''tests run with good data files; the failure paths and what they leave behind are never executed''',
 [S+'scatteringfactordata.cpp', S+'BVParametersTable.cpp', 'src/diffpy/validators.hpp', 'src/diffpy/runtimepath.cpp'],
 ['static reference tables'],
 [('lazy loading', S+'scatteringfactordata.cpp: getWKFormulasSet, getElectronNumberTable, getNeutronBCTable; '+S+'BVParametersTable.cpp: getStandardSetOfBVParam')])

prop('C14', 'Degenerate or rounded geometry never turns results into not-a-number',
 '''Peak shapes of zero width, empty structures, zero occupancies or scattering, and unit vectors whose product exceeds one by round-off
 give finite results: every division, inverse cosine or logarithm whose operand can be degenerate in normal use is guarded.''',
 ['inputs'], 'all structures and settings accepted by the library, including zero widths, zero occupancies and exactly aligned directions',
 '''degenerate values form a thin set which example-based tests rarely hit''',
 [S+'GaussianProfile.cpp', S+'CroppedGaussianProfile.cpp', S+'BondCalculator.cpp', S+'BaseDebyeSum.cpp', S+'PDFCalculator.cpp', S+'JeongPeakWidth.cpp', S+'BVParam.cpp', S+'SphericalShapeEnvelope.cpp'],
 ['operands of divisions and of functions with a limited domain'],
 [('guards', 'operator() of profiles and envelopes, getF, getExtendedRDF, checkConeFilters')])

prop('C15', 'Wrapped structures present the wrapped structure faithfully',
 '''A structure wrapped to drop its metadata or its symmetry reports for every site exactly what the wrapped structure reports, except for the single aspect the wrapper
 is meant to remove, and wrapping twice equals wrapping once.''',
 ['inputs', 'programs'], 'every structure that can be wrapped, every site property, every wrapper',
 '''tests wrap one or two structures and query a few properties; properties with default fallbacks hide a missing forwarding''',
 [S+'NoMetaStructureAdapter.cpp', S+'NoSymmetryStructureAdapter.cpp', S+'StructureAdapter.hpp', S+'StructureAdapter.cpp'],
 ['wrapped source structure'],
 [('forwarding overrides', S+'NoMetaStructureAdapter.cpp, NoSymmetryStructureAdapter.cpp')])

prop('C16', 'Results do not depend on earlier calls or on other objects',
 '''A result depends only on the object asked and the arguments given: no value left over from an earlier call, or from a call on a different object,
 in storage shared between calls or objects ever enters a result.''',
 ['histories', 'programs'], 'every sequence of calls on any number of objects',
 '''tests run each object in isolation and in one order; a leftover needs another object or an earlier call with different values''',
 [S+'Lattice.cpp', S+'Lattice.hpp', S+'R3linalg.hpp', S+'PDFCalculator.cpp', S+'OverlapCalculator.cpp', S+'BondCalculator.cpp', S+'PointsInSphere.cpp', S+'StructureAdapter.cpp', S+'BaseBondGenerator.cpp'],
 ['function-local static and namespace-scope variables'],
 [('static work variables', 'functions with static locals in src/diffpy')])

prop('C17', 'Results do not depend on the iteration order of hash tables',
 '''The outcome of every operation is, up to the rounding of sums, a function of its inputs and history alone and not of the order in which a hash-based container happens to store its items: traversals of such containers only perform order-insensitive work or sort the items first.''',
 ['inputs', 'histories', 'configurations'], 'every content of every hash-based container, every standard library implementation',
 '''on one platform the order is usually the same in every run, so a test passes although the outcome is accidental''',
 [S+'PairQuantity.cpp', S+'BVSCalculator.cpp', S+'OverlapCalculator.cpp', S+'AtomRadiiTable.cpp', S+'ScatteringFactorTable.cpp', 'src/diffpy/HasClassRegistry.ipp'],
 ['unordered containers'],
 [('traversals', 'loops over unordered_map and unordered_set in src/diffpy')])

prop('C18', 'Release and debug builds perform the same computation',
 '''Compiling without internal consistency checks changes neither results nor the errors that users rely on: consistency checks have no side effects.''',
 ['configurations', 'inputs'], 'every build configuration, every consistency check in the library',
 '''the test suite runs in one build configuration; a side effect inside a check disappears only in the other one''',
 ['src/diffpy/mathutils.hpp', S+'PQEvaluator.cpp', S+'PDFCalculator.cpp', S+'PointsInSphere.cpp', S+'OverlapCalculator.cpp', S+'BVParametersTable.cpp'],
 ['arguments of assert'],
 [('assertions', 'assert uses in src/diffpy')])

prop('C19', 'Newly created objects have fully determined state',
 '''Every object is completely initialized when its construction finishes, for every constructor the library defines: no result ever depends on an
 indeterminate value.''',
 ['programs', 'inputs'], 'every constructor of every class, every data member',
 '''an uninitialized member often holds a harmless value in a test run''',
 [S+'PairQuantity.cpp', S+'BaseBondGenerator.cpp', S+'CrystalStructureAdapter.cpp', S+'PQEvaluator.cpp', S+'Lattice.cpp', S+'OverlapCalculator.cpp', S+'JeongPeakWidth.cpp'],
 ['scalar data members'],
 [('constructors', 'all constructors in src/diffpy')])

prop('C20', 'Evaluation never modifies the structure it is given',
 '''Evaluating any quantity, comparing structures or generating bonds leaves the given structure exactly as it was and keeps no state that would change if the caller
 modifies the structure later: what is remembered for later comparison is an independent copy.''',
 ['inputs', 'histories'], 'every calculator, evaluator and structure type, every sequence of evaluations and modifications of the structure',
 '''tests rarely compare a structure before and after, or modify a structure in place between evaluations''',
 [S+'PQEvaluator.cpp', S+'PairQuantity.cpp', S+'BaseBondGenerator.cpp', S+'CrystalStructureAdapter.cpp', S+'StructureAdapter.hpp', S+'AtomicStructureAdapter.cpp'],
 ['structures held by calculators and evaluators'],
 [('remembered structure', S+'PQEvaluator.cpp: mlast_structure'), ('constant interface', S+'StructureAdapter.hpp')])

prop('C21', 'Bond searches honor the requested range and selection',
 '''Every bond search covers exactly the distance range requested for the calculation, with both limits always in force, and changing a limit, the anchor or the selected sites
 restarts the search so that no bond from the earlier settings is reported.''',
 ['inputs', 'histories'], 'every calculator and structure type, every range, every order of changes and iterations',
 '''tests use default lower limits and fresh generators; an ignored limit or stale position needs reconfiguration of a used generator''',
 [S+'BaseBondGenerator.cpp', S+'PeriodicStructureAdapter.cpp', S+'CrystalStructureAdapter.cpp', S+'PDFCalculator.cpp', S+'DebyePDFCalculator.cpp', S+'BVSCalculator.cpp', S+'OverlapCalculator.cpp', S+'PairQuantity.cpp'],
 ['distance limits, anchor, selection and position of a bond generator'],
 [('range configuration', 'configureBondGenerator overrides'), ('generator protocol', S+'BaseBondGenerator.cpp: setRmin, setRmax, select*, rewind, next')])

prop('C22', 'Trigonometry in degrees is exact at special angles and true elsewhere',
 '''The degree-based sine, cosine and their inverses return the exactly rounded value at every special angle or value they treat separately
 and agree with the standard function converted between degrees and radians for all other arguments.''',
 ['inputs'], 'all finite arguments',
 'tests check several arguments per function; a wrong entry or a wrong fallback affects the others',
 ['src/diffpy/mathutils.ipp', 'src/diffpy/mathutils.hpp'],
 ['tables of special values'],
 [('special-value switches', 'src/diffpy/mathutils.ipp: cosd, sind, acosd, asind')])

prop('C23', 'Values reused for equal keys depend on nothing but the key',
 '''Whenever a computed value is stored and reused for later items with an equal key (scattering data per atom type, cached tables), the value depends on
 no property of the item beyond that key.''',
 ['inputs'], 'all structures, in particular sites that agree in the key and differ in another property',
 '''requires a structure where two sites share the key but differ elsewhere, such as partial occupancies of one element''',
 [S+'BaseDebyeSum.cpp', S+'DebyePDFCalculator.cpp', S+'PDFCalculator.cpp', S+'BVSCalculator.cpp'],
 ['memoized per-type data'],
 [('memoization', S+'BaseDebyeSum.cpp: cacheStructureData; PDFCalculator.cpp: cacheStructureData')])

prop('C24', 'Text input is used only after it was parsed successfully',
 '''Every value read from a data file or from a user string is used only after its extraction was verified; text that cannot be interpreted results in an error and
 never in a default or leftover value.''',
 ['inputs', 'fault_sequences'], 'every malformed, truncated or empty input of each parser',
 '''tests parse valid text and a few malformed samples; each extraction has its own failure path''',
 [S+'BVParam.cpp', S+'AtomRadiiTable.cpp', S+'scatteringfactordata.cpp', S+'BVParametersTable.cpp', 'src/diffpy/runtimepath.cpp', 'src/diffpy/validators.hpp'],
 ['values extracted from streams'],
 [('stream extraction', 'operator>> uses in src/diffpy')])

NA_PROPS = True
prop('N01', 'Fourier transforms between F(Q) and G(r) are mutually inverse',
 '''Transforming a function from distance to wave-vector space and back reproduces it on the common grid within rounding.''',
 ['inputs'], 'all sampled functions and grids', 'sampled functions only', [S+'PDFUtils.cpp'], ['FFT grids'], [('fft', S+'PDFUtils.cpp: fftgtof, fftftog')])
prop('N02', 'Symmetry expansion generates each equivalent position exactly once',
 '''For every crystal, the expanded positions of a site are all distinct symmetry images within the tolerance and the multiplicity equals their count.''',
 ['inputs'], 'all lattices, symmetry operations and positions', 'needs arbitrary space groups and positions', [S+'CrystalStructureAdapter.cpp'], ['expanded positions'],
 [('expansion', S+'CrystalStructureAdapter.cpp: expandLatticeAtom')])
prop('N03', 'Lattice enumeration visits every point in the sphere exactly once',
 '''For every lattice and distance range the enumeration of lattice points is complete and free of duplicates.''',
 ['inputs'], 'all lattices and ranges', 'arbitrary skewed lattices', [S+'PointsInSphere.cpp'], ['point iterator'], [('enumeration', S+'PointsInSphere.cpp')])
prop('N04', 'Computed PDF, Debye sums and valence sums equal their physical definition',
 '''Results agree with the defining formulas for every structure within the documented precision.''',
 ['inputs'], 'all structures and settings', 'reference values exist for few structures', [S+'PDFCalculator.cpp', S+'BaseDebyeSum.cpp', S+'BVSCalculator.cpp'], ['result arrays'],
 [('summation', 'addPairContribution overrides')])
prop('N05', 'Truncated tails stay below the requested precision',
 '''Contributions neglected beyond profile bounds, precision cutoffs and extension limits change results by less than the requested precision.''',
 ['inputs'], 'all precisions, widths and distances', 'continuous error bound', [S+'GaussianProfile.cpp', S+'BVSCalculator.cpp', S+'JeongPeakWidth.cpp'], ['cutoffs'],
 [('cutoffs', 'xboundlo, xboundhi, rmaxFromPrecision, maxWidth')])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
