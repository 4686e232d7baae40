// C12: reference-simplex basis functions and cubature rules.
#include "sxplato.hpp"
#include "alg/Basis.cpp"
#include "alg/Cubature.cpp"
#include "Simplex.hpp"
#include "LinearTetCubRuleDegreeOne.hpp"
typedef Kokkos::View<double*,Plato::MemSpace> V1; typedef Kokkos::View<double**,Plato::Layout,Plato::MemSpace> V2; typedef Kokkos::View<double***,Plato::Layout,Plato::MemSpace> V3;
static double fact(int n){ double r=1; for(int i=2;i<=n;i++) r*=i; return r; }
static double ip(double x,int n){ double r=1; for(int i=0;i<n;i++) r*=x; return r; }
// rule of requested degree integrates every polynomial of that degree over the reference simplex
static void rule(int D,int deg){
  int n=Cubature::getNumCubaturePoints(D,deg); V2 p("p",n,D); V1 w("w",n);
  for(int i=0;i<n;i++){ w(i)=sx::real(sx::nm("w_",i),-9,9); for(int j=0;j<D;j++) p(i,j)=sx::real(sx::nm("p_",i,j),-9,9); }
  Cubature::getCubature(D,deg,p,w);
  double q=0,e=0; int d=deg<1?1:deg; double tot=0;
  for(int i=0;i<n;i++) tot+=w(i); sx::le("volume_hi",tot,1/fact(D)+1e-13); sx::le("volume_lo",1/fact(D)-1e-13,tot);
  for(int i=0;i<n;i++){ double s=0; for(int j=0;j<D;j++){ sx::le(sx::nm("inside",i,j),0,p(i,j)); s+=p(i,j); } sx::le(sx::nm("inside_sum",i),s,1); }
  for(int a=0;a<=d;a++) for(int b=0;b<=(D>1?d-a:0);b++) for(int c=0;c<=(D>2?d-a-b:0);c++){
    double k=sx::real(sx::nm("k",a,b,c),-10,10); e+=k*(fact(a)*fact(b)*fact(c)/fact(a+b+c+D));
    for(int i=0;i<n;i++) q+=k*w(i)*ip(p(i,0),a)*(D>1?ip(p(i,1),b):1)*(D>2?ip(p(i,2),c):1); }
  sx::le("exact_hi",q,e+1e-12); sx::le("exact_lo",e,q+1e-12);
}
#define R(D,d) SC(rule##D##_##d,rule(D,d))
R(1,0) R(1,1) R(1,2) R(1,3) R(2,0) R(2,1) R(2,2) R(2,3) R(3,0) R(3,1) R(3,2) R(3,3)
static int pts(int D,int d){ return d<=1?1: D==1?2: D==2?(d==2?3:4):(d==2?4:5); }
SC(support, int D=sx_int32("D",-2,6); int d=sx_int32("d",-2,9); int n=-1; bool t=sx::throws([&]{ n=Cubature::getNumCubaturePoints(D,d); });
  if(D<1||D>3||d>3) sx::ok("rejected",t); else { sx::ok("accepted",!t); sx::ieq("points",n,pts(D,d)); })
SC(shapes, int D=sx_int32("D",1,3); int d=sx_int32("d",0,3); int k=sx_int32("k",0,6); int N=pts(D,d); V2 p("p",N+(k==1)-(k==2),D+(k==3)-(k==4)); V1 v("w",N+(k==5)-(k==6)); bool t=sx::throws([&]{ Cubature::getCubature(D,d,p,v); }); if(k) sx::ok("rejected",t); else sx::ok("accepted",!t))
// basis: kronecker at the nodes, partition of unity, linear completeness, gradient is the derivative
static void basis(int D){
  Basis b(D); sx::ieq("cardinality",b.basisCardinality(),D+1); const int P=3;
  V2 x("x",P,D), r("r",D+1,D); V2 v("v",D+1,P), vr("vr",D+1,D+1); V3 g("g",D+1,P,D);
  for(int i=0;i<P;i++)for(int j=0;j<D;j++) x(i,j)=sx::real(sx::nm("x_",i,j),-10,10);
  for(int i=0;i<=D;i++){ for(int j=0;j<D;j++) r(i,j)=sx::real(sx::nm("r_",i,j),-10,10); for(int p=0;p<P;p++){ v(i,p)=sx::real(sx::nm("v_",i,p),-10,10); for(int j=0;j<D;j++) g(i,p,j)=sx::real(sx::nm("g_",i,p,j),-10,10); } }
  b.getRefCoords(r); for(int i=0;i<=D;i++)for(int j=0;j<D;j++) sx::eq(sx::nm("ref",i,j),r(i,j),i==j?1:0);
  b.getValues(r,vr); for(int i=0;i<=D;i++)for(int j=0;j<=D;j++) sx::eq(sx::nm("kronecker",i,j),vr(i,j),i==j?1:0);
  b.getValues(x,v); b.getGradientValues(x,g);
  for(int p=0;p<P;p++){ double s=0; for(int i=0;i<=D;i++) s+=v(i,p); sx::eq(sx::nm("unity",p),s,1);
    for(int j=0;j<D;j++){ double s=0,h=0; for(int i=0;i<=D;i++){ s+=v(i,p)*r(i,j); h+=g(i,p,j); sx::deriv(sx::nm("gradient",i,p,j),g(i,p,j),v(i,p),x(p,j)); } sx::eq(sx::nm("completeness",p,j),s,x(p,j)); sx::eq(sx::nm("gradient_sum",p,j),h,0); sx::eq(sx::nm("kept",p,j),x(p,j),sx::real(sx::nm("x_",p,j),-10,10)); } } }
SC(basis1,basis(1)) SC(basis2,basis(2)) SC(basis3,basis(3))
// one-point rule used by the element kernels: a linear nodal field is integrated exactly
template<int D> static void one(){ LinearTetCubRuleDegreeOne<D> q; sx::ieq("points",q.getNumCubPoints(),1); double w=q.getCubWeight(); auto N=q.getBasisFunctions(); auto X=q.getCubPointsCoords(); sx::ieq("nodes",N.extent(0),D+1); sx::ieq("dims",X.extent(0),D);
  sx::eq("weight",w,1/fact(D)); double s=0,u=0; double f=0; for(int i=0;i<=D;i++){ s+=N(i); double k=sx::real(sx::nm("u",i),-10,10); u+=k/(D+1); f+=k*N(i); } sx::eq("unity",s,1); sx::eq("mean",f,u);
  for(int j=0;j<D;j++) sx::eq(sx::nm("centroid",j),X(j),1.0/(D+1));
  // value at the point of the interpolated linear field a0 + sum a_j x_j with nodes 0=origin, j=unit vector
  double v=0; for(int i=0;i<=D;i++) v+=N(i)*sx::real(sx::nm("a",i),-10,10); double z=sx::real("a0",-10,10); for(int j=0;j<D;j++) z+=(sx::real(sx::nm("a",j+1),-10,10)-sx::real("a0",-10,10))*X(j); sx::eq("interp",v,z); }
SC(one1,one<1>()) SC(one2,one<2>()) SC(one3,one<3>())
