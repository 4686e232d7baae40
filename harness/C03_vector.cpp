// C03: dense vector operations.
#include "sxmain.hpp"
#include "BLAS1.hpp"
#include <limits>
using namespace Plato;
static ScalarVector vec(const char* n,int N,double* ref=nullptr,double lo=-10,double hi=10){ ScalarVector v(std::string(n),N); for(int i=0;i<N;i++){ v(i)=sx::real(sx::nm(n,i),lo,hi); if(ref) ref[i]=v(i);} return v; }
static void same(const char* l,const ScalarVector& v,const double* r){ for(size_t i=0;i<v.size();i++) sx::eq(sx::nm(l,i),v(i),r[i]); }
template<int N> static void linear(){
  double x0[N],y0[N]; ScalarVector x=vec("x",N,x0), y=vec("y",N,y0); double a=sx_real("a",-5,5), b=sx_real("b",-5,5);
  double d=0,nx=0,sm=0; for(int i=0;i<N;i++){ d+=x0[i]*y0[i]; nx+=x0[i]*x0[i]; sm+=x0[i]; }
  sx::eq("dot",blas1::dot(x,y),d); sx::eq("dot_commutes",blas1::dot(y,x),d); double s=-1; blas1::local_sum(x,s); sx::eq("local_sum",s,sm);
  double n=blas1::norm(x); sx::le("norm_nonneg",0.0,n); sx::eq("norm_squared",n*n,nx);
  same("x_after_reductions",x,x0); same("y_after_reductions",y,y0);
  ScalarVector z("z",N); blas1::copy(x,z); same("copy",z,x0); same("copy_src",x,x0);
  double r[N]; blas1::scale(a,z); for(int i=0;i<N;i++) r[i]=a*x0[i]; same("scale",z,r); same("scale_other",x,x0);
  blas1::copy(y,z); blas1::axpy(a,x,z); for(int i=0;i<N;i++) r[i]=a*x0[i]+y0[i]; same("axpy",z,r); same("axpy_in",x,x0);
  blas1::copy(y,z); blas1::update(a,x,b,z); for(int i=0;i<N;i++) r[i]=a*x0[i]+b*y0[i]; same("update",z,r); same("update_in",x,x0);
  blas1::copy(x,z); blas1::update(a,z,b,z); for(int i=0;i<N;i++) r[i]=(a+b)*x0[i]; same("update_alias",z,r);
  blas1::fill(a,z); for(int i=0;i<N;i++) r[i]=a; same("fill",z,r); same("fill_other",x,x0); same("y_end",y,y0);
}
SX_TSCENARIO(linear1,linear<1>) SX_TSCENARIO(linear2,linear<2>) SX_TSCENARIO(linear3,linear<3>) SX_TSCENARIO(linear5,linear<5>) SX_TSCENARIO(linear8,linear<8>) SX_TSCENARIO(linear17,linear<17>) SX_TSCENARIO(linear70,linear<70>) SX_TSCENARIO(linear300,linear<300>)
template<int N> static void minmax(){
  double x0[N]; ScalarVector x=vec("x",N,x0,-10,10); double mx=123,mn=123; blas1::max(x,mx); blas1::min(x,mn);
  bool hit=false,hitm=false; for(int i=0;i<N;i++){ sx::le(sx::nm("max_bounds",i),x0[i],mx); sx::le(sx::nm("min_bounds",i),mn,x0[i]); hit=hit||mx==x0[i]; hitm=hitm||mn==x0[i]; }
  sx::ok("max_attained",hit); sx::ok("min_attained",hitm); same("unchanged",x,x0);
}
SX_TSCENARIO(minmax1,minmax<1>) SX_TSCENARIO(minmax2,minmax<2>) SX_TSCENARIO(minmax3,minmax<3>) SX_TSCENARIO(minmax4,minmax<4>)
template<int SGN> static void minmax_sign(){ // all entries of one sign
  const int N=3; double x0[N]; ScalarVector x=vec("x",N,x0,SGN>0?0.5:-10,SGN>0?10:-0.5); double mx=0,mn=0; blas1::max(x,mx); blas1::min(x,mn);
  for(int i=0;i<N;i++){ sx::le(sx::nm("max_bounds",i),x0[i],mx); sx::le(sx::nm("min_bounds",i),mn,x0[i]); }
  sx::le("max_lt",mx,SGN>0?10:-0.5); sx::le("min_gt",SGN>0?0.5:-10,mn);
}
SX_TSCENARIO(minmax_pos,minmax_sign<1>) SX_TSCENARIO(minmax_neg,minmax_sign<-1>)
// scatter: only the listed entries change; the list may be shorter than the vector
template<int N,int M> static void scatter(){
  double x0[N],v0[M]; ScalarVector x=vec("x",N,x0), v=vec("v",M,v0); double a=sx_real("a",-5,5); LocalOrdinalVector o("o",M);
  int id[M]; for(int i=0;i<M;i++){ id[i]=sx::int32(sx::nm("o",i),0,N-1); for(int j=0;j<i;j++) sx_assume(id[i]!=id[j]); o(i)=id[i]; }
  blas1::fill(a,o,v,x);
  for(int k=0;k<N;k++){ double r=x0[k]; for(int i=0;i<M;i++) if(id[i]==k) r=a*v0[i]; sx::eq(sx::nm("entry",k),x(k),r); }
  same("values_unchanged",v,v0);
}
static void s11(){scatter<1,1>();} static void s22(){scatter<2,2>();} static void s33(){scatter<3,3>();} static void s31(){scatter<3,1>();} static void s42(){scatter<4,2>();}
SX_TSCENARIO(scatter_full1,s11) SX_TSCENARIO(scatter_full2,s22) SX_TSCENARIO(scatter_full3,s33) SX_TSCENARIO(scatter_part3,s31) SX_TSCENARIO(scatter_part4,s42)
template<int ST,int OF,int M> static void extr(){
  double x0[ST*M]; ScalarVector x=vec("x",ST*M,x0), y=vec("y",M); blas1::extract<ST,OF>(x,y);
  for(int i=0;i<M;i++) sx::eq(sx::nm("entry",i),y(i),x0[i*ST+OF]); same("from_unchanged",x,x0);
}
static void e1(){extr<1,0,4>();} static void e2(){extr<3,0,4>();} static void e3(){extr<3,2,5>();} static void e4(){extr<4,3,3>();} static void e5(){extr<2,1,40>();}
SX_TSCENARIO(extract_10,e1) SX_TSCENARIO(extract_30,e2) SX_TSCENARIO(extract_32,e3) SX_TSCENARIO(extract_43,e4) SX_TSCENARIO(extract_21,e5)
template<int N> static void rnd(){
  double lo=sx_real("lo",-5,5), w=sx_real("w",0,10); ScalarVector x=vec("x",N); blas1::random(lo,lo+w,x); ScalarVector y("y",N); blas1::random(lo,lo+w,y);
  for(int i=0;i<N;i++){ sx::le(sx::nm("lower",i),lo,x(i)); sx::le(sx::nm("upper",i),x(i),lo+w); sx::eq(sx::nm("repeatable",i),x(i),y(i)); }
}
SX_TSCENARIO(random1,rnd<1>) SX_TSCENARIO(random6,rnd<6>)
// malformed arguments are rejected with an exception and change nothing
SX_SCENARIO(errors){
  double x0[3],y0[4]; ScalarVector x=vec("x",3,x0), y=vec("y",4,y0), e("e",0); double a=sx_real("a",-5,5), s=1.5; double nan=std::numeric_limits<double>::quiet_NaN(), inf=std::numeric_limits<double>::infinity();
  LocalOrdinalVector o2("o",2), o0("o",0), o3("o",3); for(int i=0;i<3;i++) o3(i)=i;
  sx::ok("dot_mismatch",sx::throws([&]{ blas1::dot(x,y); })); sx::ok("dot_mismatch2",sx::throws([&]{ blas1::dot(y,x); })); sx::ok("norm_empty",sx::throws([&]{ blas1::norm(e); }));
  sx::ok("fill_empty",sx::throws([&]{ blas1::fill(a,e); })); sx::ok("fill_nan",sx::throws([&]{ blas1::fill(nan,x); })); sx::ok("fill_inf",sx::throws([&]{ blas1::fill(inf,x); }));
  sx::ok("copy_mismatch",sx::throws([&]{ blas1::copy(x,y); })); sx::ok("copy_mismatch2",sx::throws([&]{ blas1::copy(y,x); }));
  sx::ok("scale_empty",sx::throws([&]{ blas1::scale(a,e); })); sx::ok("scale_nan",sx::throws([&]{ blas1::scale(nan,x); })); sx::ok("scale_inf",sx::throws([&]{ blas1::scale(-inf,x); }));
  sx::ok("axpy_mismatch",sx::throws([&]{ blas1::axpy(a,x,y); })); sx::ok("axpy_mismatch2",sx::throws([&]{ blas1::axpy(a,y,x); }));
  sx::ok("update_mismatch",sx::throws([&]{ blas1::update(a,x,a,y); })); sx::ok("update_mismatch2",sx::throws([&]{ blas1::update(a,y,a,x); }));
  sx::ok("update_nan",sx::throws([&]{ blas1::update(nan,x,a,x); })); sx::ok("update_nan2",sx::throws([&]{ blas1::update(a,x,inf,x); }));
  sx::ok("sum_empty",sx::throws([&]{ blas1::local_sum(e,s); })); sx::ok("max_empty",sx::throws([&]{ blas1::max(e,s); })); sx::ok("min_empty",sx::throws([&]{ blas1::min(e,s); }));
  sx::ok("extract_empty",sx::throws([&]{ blas1::extract<1,0>(e,x); })); sx::ok("extract_empty2",sx::throws([&]{ blas1::extract<1,0>(x,e); }));
  sx::ok("scatter_mismatch",sx::throws([&]{ blas1::fill(a,o2,x,y); })); sx::ok("scatter_empty",sx::throws([&]{ blas1::fill(a,o0,e,x); })); sx::ok("scatter_empty_out",sx::throws([&]{ blas1::fill(a,o3,x,e); })); sx::ok("scatter_nan",sx::throws([&]{ blas1::fill(nan,o3,x,x); }));
  same("x",x,x0); same("y",y,y0); sx::eq("scalar",s,1.5);
}
