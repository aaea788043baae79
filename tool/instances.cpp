// Translation unit that instantiates the public templates of the library, so that their bodies are analyzed
// in the resolved program (never compiled into anything, parsed only).
#include <diffpy/Attributes.hpp>
#include <diffpy/Attributes.ipp>
#include <diffpy/EventTicker.hpp>
#include <diffpy/mathutils.hpp>
#include <diffpy/validators.hpp>
#include <diffpy/serialization.hpp>
#include <diffpy/runtimepath.hpp>
#include <diffpy/srreal/BVSCalculator.hpp>
#include <diffpy/srreal/BondCalculator.hpp>
#include <diffpy/srreal/ConstantRadiiTable.hpp>
#include <diffpy/srreal/CrystalStructureAdapter.hpp>
#include <diffpy/srreal/DebyePDFCalculator.hpp>
#include <diffpy/srreal/OverlapCalculator.hpp>
#include <diffpy/srreal/PDFCalculator.hpp>
#include <diffpy/srreal/PairCounter.hpp>
#include <diffpy/srreal/PointsInSphere.hpp>
#include <diffpy/srreal/NoMetaStructureAdapter.hpp>
#include <diffpy/srreal/NoSymmetryStructureAdapter.hpp>
#include <diffpy/srreal/StructureDifference.hpp>
#include <diffpy/srreal/Lattice.hpp>

using namespace diffpy::srreal;

namespace dfx_instances {

void use(StructureAdapterPtr s, BondCalculator& bc, PDFCalculator& pc, DebyePDFCalculator& dc, BVSCalculator& bv,
        OverlapCalculator& oc, PairCounter& pn, const Lattice& L, std::vector<double> v, AtomicStructureAdapter& as)
{
    bc(s); oc(s); pn(s); pc.eval(s); dc.eval(s); bv.eval(s); pc.setStructure(s);
    R3::Vector x;
    L.dot(x, x); L.norm(x); L.distance(x, x); L.angledeg(x, x); L.anglerad(x, x);
    L.cartesian(v); L.fractional(v); L.ucvCartesian(v); L.ucvFractional(v);
    Lattice L2(v, v, v);
    L2.setLatBase(x, x, x);
    R3::norm(x); R3::dot(x, x); R3::distance(x, x);
    diffpy::mathutils::EpsilonEqual eq;
    eq(x, x); eq(v, v); eq(1.0, 2.0);
    diffpy::mathutils::EpsilonLess lt;
    lt(x, x); lt(v, v);
    nometa(s); nosymmetry(s);
    as.assign(as.begin(), as.end());
    as.insert(as.begin(), as.begin(), as.end());
}

}   // namespace dfx_instances
