// C18: numbering of the leaf bases with orientations: element and vertex indices are constant, all others symbolic
#define CONCRETE
#include "numbering.hh"
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
#include <dune/functions/functionspacebases/brezzidouglasmarinibasis.hh>
#include <dune/functions/functionspacebases/rannacherturekbasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangebasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangewithelementbubblebasis.hh>
#include <dune/functions/functionspacebases/refinedlagrangebasis.hh>
template<class P> P mk(long cfg) { typename P::GridView gv; gv.cfg = cfg; return P(gv); }
// vertices in order, facets alternating between the three states
constexpr long FC = 0b10'01'00'10'01'00, VT = 0b111'110'101'100'011'010'001'000;
#define N(n, ...) O(n) { numbering(mk<__VA_ARGS__>(makeId(FC, VT))); }
#if PART==0
N(hl1t, HierarchicalLagrangePreBasis<GVT<tri>,1>) N(hl2t, HierarchicalLagrangePreBasis<GVT<tri>,2>) N(hl1T, HierarchicalLagrangePreBasis<GVT<tet>,1>) N(hl2T, HierarchicalLagrangePreBasis<GVT<tet>,2>)
#elif PART==1
N(hb1t, HierarchicalLagrangeWithElementBubblePreBasis<GVT<tri>,1>) N(hb2t, HierarchicalLagrangeWithElementBubblePreBasis<GVT<tri>,2>) N(hb1T, HierarchicalLagrangeWithElementBubblePreBasis<GVT<tet>,1>) N(hb2T, HierarchicalLagrangeWithElementBubblePreBasis<GVT<tet>,2>)
#elif PART==2
N(r0l, RefinedLagrangePreBasis<GVT<line>,0>) N(r1l, RefinedLagrangePreBasis<GVT<line>,1>) N(r0t, RefinedLagrangePreBasis<GVT<tri>,0>) N(r1t, RefinedLagrangePreBasis<GVT<tri>,1>) N(r0T, RefinedLagrangePreBasis<GVT<tet>,0>) N(r1T, RefinedLagrangePreBasis<GVT<tet>,1>)
#elif PART==3
N(rtt, RannacherTurekPreBasis<GVT<tri>>) N(rtq, RannacherTurekPreBasis<GVT<quad>>) N(rtT, RannacherTurekPreBasis<GVT<tet>>) N(rth, RannacherTurekPreBasis<GVT<hex>>) N(rtm, RannacherTurekPreBasis<GVT<tri,quad>>)
#elif PART==4
N(rt0t, RaviartThomasPreBasis<GVT<tri>,0>) N(rt0q, RaviartThomasPreBasis<GVT<quad>,0>) N(rt1t, RaviartThomasPreBasis<GVT<tri>,1>) N(rt1q, RaviartThomasPreBasis<GVT<quad>,1>)
#elif PART==5
N(rt0T, RaviartThomasPreBasis<GVT<tet>,0>)
#elif PART==6
N(rt0h, RaviartThomasPreBasis<GVT<hex>,0>)
#elif PART==7
N(rt2q, RaviartThomasPreBasis<GVT<quad>,2>)
#elif PART==8
N(rt0m, RaviartThomasPreBasis<GVT<tri,quad>,0>)
#elif PART==9
N(n1t, NedelecPreBasis<GVT<tri>,double,1,1>) N(n1q, NedelecPreBasis<GVT<quad>,double,1,1>)
#elif PART==10
N(n1T, NedelecPreBasis<GVT<tet>,double,1,1>)
#elif PART==11
N(n1m, NedelecPreBasis<GVT<tri,quad>,double,1,1>)
#elif PART==12
N(b1t, BrezziDouglasMariniPreBasis<GVT<tri>,1>)
#elif PART==13
N(b1q, BrezziDouglasMariniPreBasis<GVT<quad>,1>)
#elif PART==14
N(b2t, BrezziDouglasMariniPreBasis<GVT<tri>,2>)
#elif PART==15
N(b2q, BrezziDouglasMariniPreBasis<GVT<quad>,2>)
#endif
