// Mass properties criterion of an analysis (elliptic problems): see sxmass.hpp.
#include "sxth.hpp"
#include "sxmass.hpp"
#include "elliptic/MassPropertiesFunction.hpp"
struct Ell3 { std::shared_ptr<Plato::Elliptic::ScalarFunctionBase> f; Plato::Solution s;
  bool make(Mass& q,std::string n){ Plato::ScalarMultiVector S("S",1,q.m.N); for(int t=0;t<1;t++) for(int i=0;i<q.m.N;i++) S(t,i)=0.5*t+i; s=Plato::Solution(S); f=std::make_shared<Plato::Elliptic::MassPropertiesFunction<Plato::Thermal<3>>>(*q.sm,q.dm,q.p,n); return true; }
  double value(Mass& q){ return f->value(s,q.z); } Plato::ScalarVector gradz(Mass& q){ return f->gradient_z(s,q.z); } Plato::ScalarVector gradx(Mass& q){ return f->gradient_x(s,q.z); }
  void more(Mass& q){ for(int t=0;t<1;t++){ auto g=f->gradient_u(s,q.z,t); sx::ieq("u_size",g.size(),q.m.N); for(size_t i=0;i<g.size();i++) sx::eq(sx::nm("gu",i),g(i),0); } } };
MASSES(Ell3,elliptic_)
