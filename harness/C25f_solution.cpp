// The solution criterion: the mean over a node set, at the last load step, of the state along a direction, or of its magnitude.
#include "sxcrit.hpp"
#include "MaterialModel.cpp"
#include "Rank4Voigt.cpp"
#include "IsotropicStiffness.cpp"
#include "Mechanics.hpp"
#include "elliptic/SolutionFunction.hpp"
template<int D> void sol(int steps,bool mag,bool grad,int nn=D,bool named=true){ Ell<Plato::Mechanics,D> q({},false,NOPEN,D); std::vector<int> ns{1,q.m.N-1}; q.m.nodeset("n",ns); q.m.nodeset("o",{0}); Ad n(nn); Vec v(D,0.0); for(int i=0;i<nn;i++){ n[i]=sx::real(sx::nm("n",i),-2,2); if(i<D) v[i]=n[i]; } auto& l=criterion(q.p,"s","Solution").set("Domain","n").set("Magnitude",mag); l.set("Normal",n); q.model(); Crit k; states(q,k,steps); std::string nm="s"; k.f=std::make_shared<Plato::Elliptic::SolutionFunction<Plato::Mechanics<D>>>(*q.sm,q.dm,q.p,nm);
  double o=0; auto& u=k.us.back(); for(int a:ns){ double s=0,t=0; for(int i=0;i<D;i++){ double y=v[i]*u(a*D+i); s+=y; t+=y*y; } if(mag){ sx_assume(t>0.001); o+=sqrt(t)/ns.size(); } else o+=s/ns.size(); } double f=k.f->value(k.sol,q.z); sx::eq("value",f,o); if(!grad) return;
  gradients<D>(q,k,UZ); auto gx=k.f->gradient_x(k.sol,q.z); sx::ieq("x_size",gx.size(),q.m.N*D); for(size_t i=0;i<gx.size();i++) sx::eq(sx::nm("gx",i),gx(i),0); }
S1(solution_1d, sol<1>(2,false,true)) S1(solution_2d, sol<2>(2,false,true)) S1(solution_3d, sol<3>(2,false,true)) S1(solution_magnitude_1d, sol<1>(2,true,true)) S1(solution_magnitude_2d, sol<2>(2,true,true)) S1(solution_magnitude_3d, sol<3>(1,true,true)) S1(solution_short_normal_3d, sol<3>(1,false,true,2)) S1(solution_long_normal_2d, sol<2>(1,false,true,3))
static void refuse(bool set,bool normal,bool bad){ Ell<Plato::Mechanics,2> q({},false,NOPEN,2); q.m.nodeset(set?"n":"m",{0}); auto& l=criterion(q.p,"s","Solution").set("Domain","n"); if(normal){ Ad n(2); n[0]=n[1]=1; l.set("Normal",n); } q.model(); std::string nm="s"; sx::ok("refused",sx::throws([&](){ Plato::Elliptic::SolutionFunction<Plato::Mechanics<2>> f(*q.sm,q.dm,q.p,nm); })==bad); }
S1(solution_refused, refuse(true,true,false); refuse(false,true,true); refuse(true,false,true))
