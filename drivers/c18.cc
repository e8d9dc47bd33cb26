// C18: numbering of the leaf bases
#include "numbering.hh"
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
#define L(n, k, ...) O(l##n##_##k) { numbering(LagrangePreBasis<GVT<__VA_ARGS__>,k>(GVT<__VA_ARGS__>{})); }
#define LD(n, k, ...) O(ld##n##_##k) { numbering(LagrangePreBasis<GVT<__VA_ARGS__>,-1>(GVT<__VA_ARGS__>{}, k)); }
#define D(n, k, ...) O(d##n##_##k) { numbering<LagrangeDGPreBasis<GVT<__VA_ARGS__>,k>, false>(GVT<__VA_ARGS__>{}); }
#if PART==0
L(line,0,line) L(line,1,line) L(line,2,line) L(line,3,line) L(tri,0,tri) L(tri,1,tri) L(tri,2,tri) L(tri,3,tri)
#elif PART==1
L(quad,0,quad) L(quad,1,quad) L(quad,2,quad)
#elif PART==2
L(tet,0,tet) L(tet,1,tet) L(tet,2,tet)
#elif PART==3
L(hex,0,hex) L(hex,1,hex)
#elif PART==4
L(hex,2,hex)
#elif PART==5
D(line,0,line) D(line,1,line) D(line,3,line) D(tri,0,tri) D(tri,1,tri) D(tri,2,tri) D(tri,3,tri) D(quad,1,quad) D(quad,2,quad)
#elif PART==6
D(tet,1,tet) D(tet,2,tet) D(hex,1,hex) D(hex,2,hex)
#elif PART==7
L(mix,1,tri,quad) L(mix,2,tri,quad)
#elif PART==8
LD(mix,1,tri,quad) LD(mix,2,tri,quad)
#elif PART==9
D(mix,2,tri,quad)
#elif PART==10
L(mix3,1,tet,hex,prism,pyramid)
#elif PART==11
LD(tri,1,tri) LD(tri,2,tri)
#elif PART==12
LD(quad,2,quad)
#endif
