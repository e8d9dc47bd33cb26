// Catalogue of basis configurations used as witnesses. Each entry is
// X(name, factory-expression); the factory may use the template parameter-free
// name GV for the grid view type.
#ifndef VERIF_BASES_HH
#define VERIF_BASES_HH
#include <config.h>
#include <new>
#include <dune/grid/yaspgrid.hh>
#include <dune/functions/functionspacebases/argyrisbasis.hh>
#include <dune/functions/functionspacebases/brezzidouglasmarinibasis.hh>
#include <dune/functions/functionspacebases/bsplinebasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/cubichermitebasis.hh>
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
#include <dune/functions/functionspacebases/dynamicpowerbasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangebasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangewithelementbubblebasis.hh>
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
#include <dune/functions/functionspacebases/morleybasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
#include <dune/functions/functionspacebases/periodicbasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/rannacherturekbasis.hh>
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/refinedlagrangebasis.hh>
#include <dune/functions/functionspacebases/restrictedbasis.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
#include <dune/functions/functionspacebases/taylorhoodbasis.hh>
#include <dune/functions/functionspacebases/transformedindexbasis.hh>

using GV1 = Dune::YaspGrid<1>::LeafGridView;
using GV2 = Dune::YaspGrid<2>::LeafGridView;
using GV3 = Dune::YaspGrid<3>::LeafGridView;
namespace BF = Dune::Functions::BasisFactory;
namespace EBF = Dune::Functions::BasisFactory::Experimental;

const std::vector<double>& knots();

// elementary (leaf) bases
#define LEAF_BASES_A(X) \
  X(lagrange1, GV2, BF::lagrange<1>()) \
  X(lagrange3, GV2, BF::lagrange<3>()) \
  X(lagrange3d, GV3, BF::lagrange<3>()) \
  X(lagrangedyn, GV2, BF::lagrange(3)) \
  X(lagrangedg2, GV2, BF::lagrangeDG<2>()) \
  X(lagrangedgdyn, GV2, BF::lagrangeDG(3)) \
  X(hlag, GV2, BF::hierarchicalLagrange<2>()) \
  X(hlagb, GV2, BF::hierarchicalP1B()) \
  X(refined1, GV2, BF::refinedLagrange<1>()) \
  X(rt2d, GV2, BF::rannacherTurek())
#define LEAF_BASES_B(X) \
  X(argyris, GV2, BF::argyris()) \
  X(hermite, GV2, BF::cubicHermite()) \
  X(hermite1d, GV1, BF::cubicHermite()) \
  X(hermitered, GV2, BF::reducedCubicHermite()) \
  X(morley, GV2, BF::morley()) \
  X(bspline, GV2, BF::bSpline(knots(), 2))
#define LEAF_BASES_C(X) \
  X(bdm1, GV2, BF::brezziDouglasMarini<1>()) \
  X(bdm2, GV2, BF::brezziDouglasMarini<2>()) \
  X(rt0, GV2, BF::raviartThomas<0>()) \
  X(rt1, GV2, BF::raviartThomas<1>()) \
  X(nedelec, GV2, BF::nedelec<1,1,double>()) \
  X(nedelec3, GV3, BF::nedelec<1,1,double>())

// composed bases
#define COMPOSED_BASES_A(X) \
  X(powFI, GV2, BF::power<3>(BF::lagrange<2>(), BF::flatInterleaved())) \
  X(powFL, GV2, BF::power<3>(BF::lagrange<2>(), BF::flatLexicographic())) \
  X(powBI, GV2, BF::power<3>(BF::lagrange<2>(), BF::blockedInterleaved())) \
  X(powBL, GV2, BF::power<3>(BF::lagrange<2>(), BF::blockedLexicographic())) \
  X(dpowFI, GV2, BF::power(BF::lagrange<2>(), 3, BF::flatInterleaved())) \
  X(dpowFL, GV2, BF::power(BF::lagrange<2>(), 3, BF::flatLexicographic())) \
  X(dpowBI, GV2, BF::power(BF::lagrange<2>(), 3, BF::blockedInterleaved())) \
  X(dpowBL, GV2, BF::power(BF::lagrange<2>(), 3, BF::blockedLexicographic()))
#define COMPOSED_BASES_B(X) \
  X(compFL, GV2, BF::composite(BF::lagrange<2>(), BF::lagrange<1>(), BF::raviartThomas<0>(), BF::flatLexicographic())) \
  X(compBL, GV2, BF::composite(BF::power<2>(BF::lagrange<2>(), BF::flatInterleaved()), BF::lagrange<1>(), BF::blockedLexicographic())) \
  X(compmix, GV2, BF::composite(BF::power<2>(BF::lagrange<2>(), BF::blockedInterleaved()), BF::lagrange<1>(), BF::blockedLexicographic())) \
  X(taylorhood, GV2, BF::taylorHood())


#endif
