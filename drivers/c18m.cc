// C18: numbering of the bases with derivative degrees of freedom
#if PART==1
#define MOCK3_PRESENT(q) && g == 2 && (q == refel::point || q == refel::line || q == refel::tri)
#endif
#define CONCRETE
#include "numbering.hh"
#include <dune/functions/functionspacebases/morleybasis.hh>
#include <dune/functions/functionspacebases/argyrisbasis.hh>
#include <dune/functions/functionspacebases/cubichermitebasis.hh>
template<class P> P mk(long cfg) { typename P::GridView gv; gv.cfg = cfg; return P(gv); }
#define N(n, ...) O(n) { numbering(mk<__VA_ARGS__>(makeId(0, 0b010'001'000))); }
#if PART==0
N(mo, MorleyPreBasis<GVT<tri>,double>)
#elif PART==1
N(ar, ArgyrisPreBasis<GVT<tri>,double>)
#elif PART==2
N(ch1, CubicHermitePreBasis<GVT<line>,double>)
#elif PART==3
N(ch2, CubicHermitePreBasis<GVT<tri>,double>)
#elif PART==4
N(chr, CubicHermitePreBasis<GVT<tri>,double,true>)
#elif PART==5
N(ch3, CubicHermitePreBasis<GVT<tet>,double>)
#endif
