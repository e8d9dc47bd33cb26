// grid function types used as witnesses (included at namespace scope)
using GV=GV2; using E = GV::Codim<0>::Entity;
using FL = decltype(BF::power<2>(BF::lagrange<2>(), BF::flatInterleaved()));
using GB = GB_t<GV,FL>;
using SB = decltype(subspaceBasis(std::declval<const GB&>(), 0));
using SLV = SB::LocalView;
using Vec = std::vector<double>;
using DGF = DiscreteGlobalBasisFunction<GB, Vec, HierarchicNodeToRangeMap, Dune::FieldVector<double,2>>;
using DLF = decltype(localFunction(std::declval<const DGF&>()));
using DDGF = decltype(derivative(std::declval<const DGF&>()));
using DDL = decltype(localFunction(std::declval<const DDGF&>()));
using SFL = decltype(BF::lagrange<1>());
using SGB = GB_t<GV,SFL>;
using SDGF = DiscreteGlobalBasisFunction<SGB, Vec, HierarchicNodeToRangeMap, double>;
struct Fun { double operator()(const Dune::FieldVector<double,2>& x) const; double a[3]; };
struct DFun { Dune::FieldMatrix<double,1,2> operator()(const Dune::FieldVector<double,2>& x) const; double a[3]; };
DFun derivative(const Fun& f);
using AGF = decltype(makeAnalyticGridViewFunction(std::declval<Fun>(), std::declval<const GV&>()));
using ALF = decltype(localFunction(std::declval<const AGF&>()));
using FNF = FaceNormalGridFunction<GV>; using FNL = decltype(localFunction(std::declval<const FNF&>()));
struct Outer { double operator()(double, double) const; double b; };
using CGF = decltype(makeComposedGridFunction(std::declval<Outer>(), std::declval<SDGF>(), std::declval<SDGF>()));
using CGL = decltype(localFunction(std::declval<const CGF&>()));
using CFF = CoarseFunctionOnFineGridView<SDGF, GV>; using CFFL = decltype(localFunction(std::declval<const CFF&>()));
using FFC = FineFunctionOnCoarseGridView<SDGF, GV>; using FFCL = decltype(localFunction(std::declval<const FFC&>()));
using GIA = GeometryInAncestor<E>;
struct Inc { bool operator()(const E&) const; };
