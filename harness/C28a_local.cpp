// J2 local residual: value, update (return mapping), derivatives.
#include "sxpl.hpp"
template<class Q> void oracle(Q& q,int e,const Plato::ScalarVector& u,const Plato::ScalarVector& c,double* s,double& nrm,double& yield,double& G,double& H){ const int N=Q::N,L=Q::L; double el[6]; q.elastic(e,u,c,el); G=cube(q.rho(e),0.125)*shear(q.mat(e)); q.deviator(G,el,s); double t=0; for(int i=0;i<N;i++){ s[i]-=c(e*L+2+N+i); t+=(Q::diag(i)?1:2)*s[i]*s[i]; } nrm=sqrt(t); double pp=square(q.rho(e),0.25)*(q.mat(e)+1); H=pp*q.Hk; yield=pp*(q.sy+q.Hi*c(e*L)); }
template<int D,int T> void value(bool two,int plastic){ Pl<D,T> q({},two); q.start(); q.local(); const int N=q.N,L=q.L; for(int e=0;e<q.m.NC;e++) if((plastic>>e)&1) sx_assume(q.c(e*L+1)>0); else sx_assume(q.c(e*L+1)<=0); auto r=q.l->value(q.u,q.up,q.c,q.cp,q.z); auto w=q.l->valueWorkSet(q.u,q.up,q.c,q.cp,q.z); sx::ieq("size",r.size(),q.m.NC*L); sx::ieq("rows",w.extent(0),q.m.NC); if((int)r.size()!=q.m.NC*L) return;
  for(int e=0;e<q.m.NC;e++){ bool p=(plastic>>e)&1; double s[6],m,y,G,H; oracle(q,e,q.u,q.c,s,m,y,G,H); for(int i=0;i<L;i++){ double o=q.c(e*L+i)-q.cp(e*L+i),g=q.c(e*L+1); if(i==0&&p) o-=g; if(i==1) o=p?sqrt(1.5)*m-y:g; if(i>=2&&i<2+N&&p) o-=(q.diag(i-2)?1:2)*sqrt(1.5)*g*s[i-2]/m; if(i>=2+N&&p) o-=sqrt(2.0/3.0)*H*g*s[i-2-N]/m; sx::eq(sx::nm("r",e,i),r(e*L+i),o); sx::eq(sx::nm("w",e,i),w(e,i),o); } } }
S1(local_2d, value<2,0>(true,1)) S1(local_other_2d, value<2,0>(true,2)) S1(local_one_domain_2d, value<2,0>(false,3)) S1(local_3d, value<3,0>(true,1)) S1(local_thermal_2d, value<2,1>(true,3)) S1(local_thermal_3d, value<3,1>(true,2))
// derivatives of the local residual, cell by cell, at a fixed point with the listed unknowns symbolic: u nodes, c / cp entries, z nodes, moved nodes xs
struct WrtL { std::vector<int> u,c,cp,z,xs; };
template<int D,int T> void derivs(bool two,int plastic,WrtL w){ Pl<D,T> q(w.xs,two,"x"); q.start(); q.local(); const int L=q.L,F=q.dof; auto& m=q.m; auto in=[](const std::vector<int>& v,int k){ for(int i:v) if(i==k) return true; return false; };
  q.fix(q.up,4,1); for(int k:w.u) for(int j=0;j<F;j++){ q.u(k*F+j)=sx::real(sx::nm("du",k,j),-1,1); q.up(k*F+j)=sx::real(sx::nm("dup",k,j),-1,1); } for(int k:w.z) q.z(k)=sx::real(sx::nm("dz",k),0.125,1);
  for(int e=0;e<m.NC;e++){ q.c(e*L+1)=(plastic>>e)&1?0.375:-0.25; for(int j:w.c) q.c(e*L+j)=j==1?((plastic>>e)&1?sx::real(sx::nm("dc",e,j),0.125,1):sx::real(sx::nm("dc",e,j),-1,-0.125)):sx::real(sx::nm("dc",e,j),-1,1); for(int j:w.cp) q.cp(e*L+j)=sx::real(sx::nm("dcp",e,j),-1,1); }
  auto r=q.l->valueWorkSet(q.u,q.up,q.c,q.cp,q.z);
  if(w.u.size()){ auto A=q.l->gradient_u(q.u,q.up,q.c,q.cp,q.z), Bm=q.l->gradient_up(q.u,q.up,q.c,q.cp,q.z); bool g=(int)A.extent(0)==m.NC&&(int)A.extent(1)==L&&(int)A.extent(2)==F*(D+1); sx::ok("shape_u",g); if(g) for(int e=0;e<m.NC;e++) for(int i=0;i<L;i++) for(int b=0;b<=D;b++) if(in(w.u,m.v(e,b))) for(int j=0;j<F;j++){ sx::deriv(sx::nm("u",e,i,b*F+j),A(e,i,b*F+j),r(e,i),q.u(m.v(e,b)*F+j)); sx::deriv(sx::nm("up",e,i,b*F+j),Bm(e,i,b*F+j),r(e,i),q.up(m.v(e,b)*F+j)); } }
  if(w.c.size()){ auto A=q.l->gradient_c(q.u,q.up,q.c,q.cp,q.z); for(int e=0;e<m.NC;e++) for(int i=0;i<L;i++) for(int j:w.c) sx::deriv(sx::nm("c",e,i,j),A(e,i,j),r(e,i),q.c(e*L+j)); }
  if(w.cp.size()){ auto A=q.l->gradient_cp(q.u,q.up,q.c,q.cp,q.z); for(int e=0;e<m.NC;e++) for(int i=0;i<L;i++) for(int j:w.cp) sx::deriv(sx::nm("cp",e,i,j),A(e,i,j),r(e,i),q.cp(e*L+j)); }
  if(w.z.size()){ auto A=q.l->gradient_z(q.u,q.up,q.c,q.cp,q.z); for(int e=0;e<m.NC;e++) for(int i=0;i<L;i++) for(int b=0;b<=D;b++) if(in(w.z,m.v(e,b))) sx::deriv(sx::nm("z",e,i,b),A(e,i,b),r(e,i),q.z(m.v(e,b))); }
  if(w.xs.size()){ auto A=q.l->gradient_x(q.u,q.up,q.c,q.cp,q.z); for(int e=0;e<m.NC;e++) for(int b=0;b<=D;b++){ int k=m.v(e,b); if(in(w.xs,k)) for(int i=0;i<L;i++) for(int d=0;d<D;d++) sx::deriv(sx::nm("x",e,i,b*D+d),A(e,i,b*D+d),r(e,i),sx::real(sx::nm("x",k,d),-0.125,0.125)); } } }
S1(local_u_2d, derivs<2,0>(true,1,{{0},{},{},{},{}})) S1(local_u3_2d, derivs<2,0>(true,2,{{3},{},{},{},{}})) S1(local_c_2d, derivs<2,0>(true,1,{{},{0,1,2,3},{},{},{}})) S1(local_cb_2d, derivs<2,0>(true,2,{{},{4,5,6},{},{},{}})) S1(local_cc_2d, derivs<2,0>(true,1,{{},{7,8,9},{},{},{}})) S1(local_cp_2d, derivs<2,0>(true,1,{{},{},{0,1,2,3,4,5,6,7,8,9},{},{}})) S1(local_z_2d, derivs<2,0>(true,1,{{},{},{},{1},{}})) S1(local_x_2d, derivs<2,0>(true,1,{{},{},{},{},{2}}))
S1(local_u_thermal_2d, derivs<2,1>(true,2,{{1},{},{},{},{}})) S1(local_c_3d, derivs<3,0>(true,2,{{},{1,4,9},{},{},{}})) S1(local_u_3d, derivs<3,0>(true,2,{{2},{},{},{},{}})) S1(local_z_thermal_2d, derivs<2,1>(true,2,{{},{},{},{2},{}})) S1(local_x_thermal_2d, derivs<2,1>(true,2,{{},{},{},{},{2}}))
// update: elastic trial; beyond the yield surface the multiplier is the closed-form return, and plastic strain and backstress follow the flow rule
template<int D,int T> void update(bool two,int plastic,std::vector<int> nodes,bool old=false){ Pl<D,T> q({},two,"x"); q.start(); q.local(); const int N=q.N,L=q.L; for(int e=0;e<q.m.NC;e++){ double st[6]; q.strain(e,q.u,st); for(int i=0;i<N;i++) if((plastic>>e)&1) q.cp(e*L+2+N+i)*=8; else { q.cp(e*L+2+i)=st[i]; q.cp(e*L+2+N+i)*=0.125; } } for(int k:nodes) for(int j=0;j<q.dof;j++) q.u(k*q.dof+j)=sx::real(sx::nm("du",k,j),-1,1); if(old) for(int e=0;e<q.m.NC;e++) for(int j:{0,3,2+N}) q.cp(e*L+j)=sx::real(sx::nm("dcp",e,j),-1,1); std::vector<std::vector<double>> S; Vec M,Y,GG,HH; for(int e=0;e<q.m.NC;e++){ double s[6],m,y,G,H; oracle(q,e,q.u,q.cp,s,m,y,G,H); S.push_back(std::vector<double>(s,s+N)); M.push_back(m); Y.push_back(y); GG.push_back(G); HH.push_back(H); if((plastic>>e)&1) sx_assume(sqrt(1.5)*m-y>0.0625); else sx_assume(sqrt(1.5)*m-y<0); }
  q.l->updateLocalState(q.u,q.up,q.c,q.cp,q.z); for(int e=0;e<q.m.NC;e++){ bool p=(plastic>>e)&1; double g=p?(sqrt(1.5)*M[e]-Y[e])/(3*GG[e]+square(q.rho(e),0.25)*(q.mat(e)+1)*(q.Hi+q.Hk)):0.0; for(int i=0;i<L;i++){ double o=q.cp(e*L+i); if(i==0) o+=g; if(i==1) o=g; if(i>=2&&i<2+N&&p) o+=(q.diag(i-2)?1:2)*sqrt(1.5)*g*S[e][i-2]/M[e]; if(i>=2+N&&p) o+=sqrt(2.0/3.0)*HH[e]*g*S[e][i-2-N]/M[e]; sx::eq(sx::nm("state",e,i),q.c(e*L+i),o); } } }
S1(update_2d, update<2,0>(true,1,{1})) S1(update_other_2d, update<2,0>(true,2,{2})) S1(update_old_2d, update<2,0>(true,1,{},true)) S1(update_3d, update<3,0>(true,1,{1})) S1(update_thermal_2d, update<2,1>(false,3,{2})) S1(update_thermal_3d, update<3,1>(true,2,{2}))
