// Plastic and elastic work criteria (plane strain), single and weighted; values and cell-wise derivatives.
#include "sxpl.hpp"
#include "PathDependentScalarFunctionFactory.hpp"
#include "PathDependentScalarFunctionFactory_def.hpp"
template<int T> struct Wk : Pl<2,T> { std::shared_ptr<Plato::LocalScalarFunctionInc> f; double mu,w1; std::string kind;
  void crit(const char* nm,const char* ty,double ex,double lo){ auto& q=at(this->p,(std::string("Criteria/")+nm).c_str()); q.set("Type","Scalar Function").set("Scalar Function Type",ty).set("Multiplier",mu); q.sublist("Penalty Function").set("Exponent",ex).set("Minimum Value",lo); }
  Wk(std::vector<int> xs,bool two,const char* free,const char* k):Pl<2,T>(xs,two,free),kind(k){ mu=sx::real("mu",0.5,2); w1=sx::real("w1",-2,2); crit("pw","Plastic Work",3.0,0.125); crit("ew","Elastic Work",2.0,0.25); Teuchos::Array<std::string> fn(2); fn[0]="ew"; fn[1]="pw"; Ad wt(2); wt[0]=w1; wt[1]=-0.5; at(this->p,"Criteria/sum").set("Type","Weighted Sum").set("Functions",fn).set("Weights",wt); this->start(); Plato::PathDependentScalarFunctionFactory<typename Pl<2,T>::GP> fac; f=fac.create(*this->sm,this->dm,this->p,kind); }
  double work(int e,bool plastic){ const int N=this->N,L=this->L; double a[6],b[6],s[6],t[6],o=0,r=this->rho(e),pen=plastic?cube(r,0.125):square(r,0.25); this->elastic(e,this->u,this->c,a); this->elastic(e,this->up,this->cp,b); this->cauchy(e,a,pen,s); this->cauchy(e,b,pen,t); for(int i=0;i<N;i++) o+=0.5*(s[i]+t[i])*(plastic?this->c(e*L+2+i)-this->cp(e*L+2+i):a[i]-b[i]); return o*this->m.vol(e); }
  double want(){ double p=0,q=0; for(int e=0;e<this->m.NC;e++){ p+=work(e,true); q+=work(e,false); } return mu*(kind=="pw"?p:kind=="ew"?q:w1*q-0.5*p); } };
template<int T> void value(const char* kind,bool two,std::vector<int> xs,const char* free="ucpzm"){ Wk<T> q(xs,two,free,kind); sx::eq("value",q.f->value(q.u,q.up,q.c,q.cp,q.z),q.want()); }
S1(plastic_work_2d, value<0>("pw",true,{1})) S1(elastic_work_2d, value<0>("ew",true,{1})) S1(plastic_work_one_2d, value<0>("pw",false,{1})) S1(plastic_work_thermal_2d, value<1>("pw",true,{},"ucpz")) S1(elastic_work_thermal_2d, value<1>("ew",true,{},"ucpz")) S1(work_sum_2d, value<0>("sum",true,{}))
template<int T> void derivs(const char* kind,bool two,std::vector<int> xs,char w,const char* free){ Wk<T> q(xs,two,free,kind); auto& m=q.m; double v=q.f->value(q.u,q.up,q.c,q.cp,q.z); const int F=q.dof,L=q.L,D=2;
  auto A=w=='u'?q.f->gradient_u(q.u,q.up,q.c,q.cp,q.z):w=='v'?q.f->gradient_up(q.u,q.up,q.c,q.cp,q.z):w=='c'?q.f->gradient_c(q.u,q.up,q.c,q.cp,q.z):w=='p'?q.f->gradient_cp(q.u,q.up,q.c,q.cp,q.z):w=='z'?q.f->gradient_z(q.u,q.up,q.c,q.cp,q.z):q.f->gradient_x(q.u,q.up,q.c,q.cp,q.z); bool cell=w=='c'||w=='p'; int K=w=='u'||w=='v'?F:w=='z'?1:D,C=cell?m.NC*L:m.N*K; bool ok=(int)A.extent(0)==m.NC&&(int)A.extent(1)==(cell?L:K*(D+1)); sx::ok("shape",ok); if(!ok) return;
  Vec a(C,0.0); for(int e=0;e<m.NC;e++) if(cell) for(int j=0;j<L;j++) a[e*L+j]+=A(e,j); else for(int s=0;s<=D;s++) for(int j=0;j<K;j++) a[m.v(e,s)*K+j]+=A(e,s*K+j);
  if(w=='x'){ for(int k:xs) for(int d=0;d<D;d++) sx::deriv(sx::nm("dx",k*D+d),a[k*D+d],v,sx::real(sx::nm("x",k,d),-0.125,0.125)); } else for(int j=0;j<C;j++) if(w!='z'||q.has('z')||j==2) sx::deriv(sx::nm("d",j),a[j],v,w=='u'?q.u(j):w=='v'?q.up(j):w=='c'?q.c(j):w=='p'?q.cp(j):q.z(j)); }
S1(plastic_work_u_2d, derivs<0>("pw",true,{},'u',"ucp")) S1(plastic_work_up_2d, derivs<0>("pw",true,{},'v',"ucp")) S1(plastic_work_c_2d, derivs<0>("pw",true,{},'c',"ucp")) S1(plastic_work_cp_2d, derivs<0>("pw",true,{},'p',"ucp")) S1(plastic_work_z_2d, derivs<0>("pw",true,{},'z',"z")) S1(plastic_work_x_2d, derivs<0>("pw",true,{2},'x',""))
S1(elastic_work_u_2d, derivs<0>("ew",true,{},'u',"ucp")) S1(elastic_work_up_2d, derivs<0>("ew",true,{},'v',"ucp")) S1(elastic_work_c_2d, derivs<0>("ew",true,{},'c',"ucp")) S1(elastic_work_cp_2d, derivs<0>("ew",true,{},'p',"ucp")) S1(elastic_work_z_2d, derivs<0>("ew",true,{},'z',"z")) S1(elastic_work_x_2d, derivs<0>("ew",true,{2},'x',""))
S1(plastic_work_u_thermal_2d, derivs<1>("pw",true,{},'u',"ucp")) S1(elastic_work_up_thermal_2d, derivs<1>("ew",true,{},'v',"ucp")) S1(work_sum_u_2d, derivs<0>("sum",true,{},'u',"ucp")) S1(work_sum_up_2d, derivs<0>("sum",true,{},'v',"ucp")) S1(work_sum_c_2d, derivs<0>("sum",true,{},'c',"ucp")) S1(work_sum_cp_2d, derivs<0>("sum",true,{},'p',"ucp")) S1(work_sum_z_2d, derivs<0>("sum",true,{},'z',"z")) S1(work_sum_x_2d, derivs<0>("sum",true,{2},'x',""))
S1(plastic_work_x_thermal_2d, derivs<1>("pw",true,{2},'x',"")) S1(elastic_work_x_thermal_2d, derivs<1>("ew",true,{2},'x',"")) S1(elastic_work_c_thermal_2d, derivs<1>("ew",true,{},'c',"ucp")) S1(plastic_work_z_thermal_2d, derivs<1>("pw",true,{},'z',"z")) S1(plastic_work_one_u_2d, derivs<0>("pw",false,{},'u',"ucp")) S1(elastic_work_one_x_2d, derivs<0>("ew",false,{0},'x',""))
