// C11: p-norm aggregation of stress/flux measures: cell contribution, final value and the chain-rule scaling of the gradient.
#include "sxplato.hpp"
#include <Sacado.hpp>
#include <Teuchos_RCP.hpp>
#include <Teuchos_ParameterList.hpp>
#include <Teuchos_Array.hpp>
#include "TensorPNorm.hpp"
#include "VectorPNorm.hpp"
typedef Sacado::Fad::SFad<double,3> F3;
template<class R> struct Ev { typedef R ResultScalarType; typedef double ControlScalarType; typedef double ConfigScalarType; };
static double sq(const ScalarMultiVector& t,int c,int n){ double s=0; for(int i=0;i<n;i++) s+=t(c,i)*t(c,i); return s; }
template<int N> static void vec(){ auto r=sv("r",NC),v=sv("v",NC,0.1,10); auto t=mv("t",NC,N); int p=sx_int32("p",1,8); sx_assume(sq(t,C,N)>1e-6); VectorPNorm<N>()(C,r,t,p,v); double x=v(C)*pow(sqrt(sq(t,C,N)),p); sx::eq("value",r(C),x); others1("r",r); kept("t",t); kept1("v",v,0.1,10); }
SC(vec1,vec<1>()) SC(vec2,vec<2>()) SC(vec3,vec<3>())
// cell contribution vol*|t|^p for every real exponent; factory default
template<int N> static void plain(){ auto r=sv("r",NC),v=sv("v",NC,0.1,10); auto t=mv("t",NC,N); double p=sx_real("p",1,8); for(int c=0;c<NC;c++) sx_assume(sq(t,c,N)>1e-6); Teuchos::ParameterList l; l.set<double>("Exponent",p); if(sx_int32("other_type",0,1)) l.sublist("Normalize").set<std::string>("Type","None"); TensorNormFactory<N,Ev<double>> f; auto n=f.create(l); ScalarMultiVector z("z",NC,1);
  n->evaluate(r,t,z,v); for(int c=0;c<NC;c++) sx::eq(sx::nm("value",c),r(c),v(c)*pow(sq(t,c,N),p/2)); double s=sx_real("S",0.1,100),y=s; n->postEvaluate(y); sx::eq("root",y,pow(s,1/p)); kept("t",t); kept1("v",v,0.1,10);
  ScalarVector g("g0",NC); for(int c=0;c<NC;c++) g(c)=sx::real(sx::nm("g",c),-10,10); n->postEvaluate(g,s); for(int c=0;c<NC;c++) sx::eq(sx::nm("scaled",c),g(c),sx::real(sx::nm("g",c),-10,10)*pow(s,1/p-1)/p); }
SC(plain1,plain<1>()) SC(plain3,plain<3>()) SC(plain6,plain<6>())
// the p-norm of a uniform field over unit volume is its magnitude, for every exponent
static void uniform(){ double p=sx_real("p",1,8),a=sx_real("a",0.1,10); Teuchos::ParameterList l; l.set<double>("Exponent",p); TensorNormFactory<1,Ev<double>> f; auto n=f.create(l); ScalarVector r("r",1),v("v",1); ScalarMultiVector t("t",1,1),z("z",1,1); v(0)=1; t(0,0)=a; n->evaluate(r,t,z,v); double y=r(0); n->postEvaluate(y); sx::eq("magnitude",y,a); }
SC(uniform,uniform())
// weighted: vol * ( sqrt(w t.t) / ref )^p, defaults 1
template<int N> static void weighted(){ auto r=sv("r",NC),v=sv("v",NC,0.1,10); auto t=mv("t",NC,N); double p=sx_real("p",1,8); for(int c=0;c<NC;c++) sx_assume(sq(t,c,N)>1e-6); Teuchos::ParameterList l; l.set<double>("Exponent",p); auto& q=l.sublist("Normalize"); q.set<std::string>("Type","Scalar"); auto& w=q.sublist("Scalar"); double ref=1,sp=1; int k=sx_int32("given",0,3); if(k&1){ ref=sx_real("ref",0.1,10); w.set<double>("Reference Weight",ref); } if(k&2){ sp=sx_real("sp",0.1,10); w.set<double>("Scalar Product Weight",sp); }
  TensorNormFactory<N,Ev<double>> f; auto n=f.create(l); ScalarMultiVector z("z",NC,1); n->evaluate(r,t,z,v); for(int c=0;c<NC;c++) sx::eq(sx::nm("value",c),r(c),v(c)*pow(sqrt(sp*sq(t,c,N))/ref,p)); kept("t",t); }
SC(weighted1,weighted<1>()) SC(weighted3,weighted<3>()) SC(weighted6,weighted<6>())
// end to end: the automatic-differentiation gradient of the sum, scaled by postEvaluate, is the derivative of the p-norm
static void grad(){ double p=sx_real("p",1,6); Teuchos::ParameterList l; l.set<double>("Exponent",p); const int n=2; TensorNormFactory<1,Ev<F3>> f; auto N=f.create(l); Plato::ScalarVectorT<F3> r("r",n); Plato::ScalarMultiVectorT<F3> t("t",n,1); ScalarMultiVector z("z",n,1); auto v=sv("v",n,0.1,10); double x[2]; for(int i=0;i<n;i++){ x[i]=sx::real(sx::nm("x",i),0.1,10); t(i,0)=F3(3,i,x[i]); }
  N->evaluate(r,t,z,v); double S=r(0).val()+r(1).val(); ScalarVector g("g",n); for(int i=0;i<n;i++) g(i)=r(0).dx(i)+r(1).dx(i); double J=S; N->postEvaluate(J); N->postEvaluate(g,S); for(int i=0;i<n;i++) sx::deriv(sx::nm("gradient",i),g(i),J,x[i]); }
SC(grad,grad())
// Barlat 2004-18p: reference implementation from the definition (principal values of the two transformed deviators)
struct Pv { double s[3]; };
static Pv principal(const double* s){ double h1=(s[0]+s[1]+s[2])/3, h2=(s[3]*s[3]+s[4]*s[4]+s[5]*s[5]-s[1]*s[2]-s[2]*s[0]-s[0]*s[1])/3, h3=(2*s[3]*s[4]*s[5]+s[0]*s[1]*s[2]-s[0]*s[3]*s[3]-s[1]*s[4]*s[4]-s[2]*s[5]*s[5])/2; double p=h1*h1+h2, q=(2*h1*h1*h1+3*h1*h2+2*h3)/2, th=acos(q/pow(p,1.5)); Pv r; r.s[0]=h1+2*sqrt(p)*cos(th/3); r.s[1]=h1+2*sqrt(p)*cos((th+4*acos(-1.0))/3); r.s[2]=h1+2*sqrt(p)*cos((th+2*acos(-1.0))/3); return r; }
template<int N> static void barlat(){ auto r=sv("r",NC),v=sv("v",NC,0.1,10); auto t=mv("t",NC,N); double p=sx_real("p",1,6); Teuchos::ParameterList l; l.set<double>("Exponent",p); auto& q=l.sublist("Normalize"); q.set<std::string>("Type","Barlat"); auto& b=q.sublist("Barlat"); double ref=1; int ex=6; if(sx_int32("ref_given",0,1)){ ref=sx_real("ref",0.1,10); b.set<double>("Reference Weight",ref); } int k=sx_int32("exponent_given",0,2); if(k){ ex=2*k; b.set<int>("Barlat Exponent",ex); }
  double T[2][6][6]; for(int m=0;m<2;m++) for(int i=0;i<6;i++){ Teuchos::Array<double> a(6); for(int j=0;j<6;j++){ double x=0; if(i<3&&j<3) x=(i==j)?0:-1+0.125*(i+2*j-3*m); if(i==j&&i>=3) x=1+0.0625*i+0.25*m; T[m][i][j]=a[j]=x; } b.set<Teuchos::Array<double>>("T"+std::to_string(m+1)+std::to_string(i),a); }
  TensorNormFactory<N,Ev<double>> f; auto n=f.create(l); ScalarMultiVector z("z",NC,1); double s6[6]={0,0,0,0,0,0}; int ix6[6]={0,1,2,3,4,5},ix3[3]={0,1,5}; for(int i=0;i<N;i++) s6[N==3?ix3[i]:ix6[i]]=t(C,i); double d[6]; for(int i=0;i<6;i++) d[i]=i<3?s6[i]-(s6[0]+s6[1]+s6[2])/3:s6[i]; double sp[2][6]; for(int m=0;m<2;m++) for(int i=0;i<6;i++){ sp[m][i]=0; for(int j=0;j<6;j++) sp[m][i]+=T[m][i][j]*d[j]; }
  for(int m=0;m<2;m++){ const double* s=sp[m]; double h1=(s[0]+s[1]+s[2])/3, h2=(s[3]*s[3]+s[4]*s[4]+s[5]*s[5]-s[1]*s[2]-s[2]*s[0]-s[0]*s[1])/3; sx_assume(h1*h1+h2>0.01); }
  ScalarVector r1("r1",1),v1("v1",1); ScalarMultiVector t1("t1",1,N),z1("z1",1,1); v1(0)=v(C); for(int i=0;i<N;i++) t1(0,i)=t(C,i); n->evaluate(r1,t1,z1,v1);
  Pv a=principal(sp[0]),c=principal(sp[1]); double y=0; for(int i=0;i<3;i++)for(int j=0;j<3;j++) y+=pow(a.s[i]-c.s[j],ex); sx::eq("effective",r1(0),v(C)*pow(pow(y/4,1.0/ex)/ref,p)); }
SC(barlat1,barlat<1>()) SC(barlat3,barlat<3>()) SC(barlat6,barlat<6>())
