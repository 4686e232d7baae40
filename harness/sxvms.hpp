// Stabilized (displacement-pressure) residuals on the small mesh. Unknowns per node: displacement, pressure[, temperature]; nodal field: projected pressure gradient.
#pragma once
#include "sxell.hpp"
#include "VectorFunctionVMS.hpp"
struct WrtV { bool u,n,z,x,ws; };
static const WrtV VU{true,false,false,false,false}, VN{false,true,false,false,false}, VZ{false,false,true,false,false}, VX{false,false,false,true,false}, VW{false,false,false,false,true};
// matrices (and cell-wise matrices) of f are derivatives of its residual; R unknowns, K nodal field components per node
template<int D,class F,class Q> void vmsDerivs(F& f,Q& q,Plato::ScalarVector u,Plato::ScalarVector n,int dof,int K,WrtV w){ auto r=f.value(u,n,q.z); int N=q.m.N,R=N*dof,C=N*K; bool g; sx::ieq("size",r.size(),R);
  if(w.u){ auto J=dense(f.gradient_u(u,n,q.z),R,R,g); sx::ok("u_well_formed",g); if(g) for(int i=0;i<R;i++) for(int j=0;j<R;j++) sx::deriv(sx::nm("dr_du",i,j),J[i][j],r(i),u(j)); auto T=dense(f.gradient_u_T(u,n,q.z),R,R,g); sx::ok("uT_well_formed",g); if(g) for(int i=0;i<R;i++) for(int j=0;j<R;j++) sx::eq(sx::nm("transpose_u",i,j),T[j][i],J[i][j]); }
  if(w.n){ auto J=dense(f.gradient_n(u,n,q.z),R,C,g); sx::ok("n_well_formed",g); if(g) for(int i=0;i<R;i++) for(int j=0;j<C;j++) sx::deriv(sx::nm("dr_dn",i,j),J[i][j],r(i),n(j)); auto T=dense(f.gradient_n_T(u,n,q.z),C,R,g); sx::ok("nT_well_formed",g); if(g) for(int i=0;i<R;i++) for(int j=0;j<C;j++) sx::deriv(sx::nm("dr_dn_T",j,i),T[j][i],r(i),n(j)); }
  if(w.z){ auto J=dense(f.gradient_z(u,n,q.z),N,R,g); sx::ok("z_well_formed",g); if(g) for(int i=0;i<R;i++) for(int j=0;j<N;j++) sx::deriv(sx::nm("dr_dz",j,i),J[j][i],r(i),q.z(j)); }
  if(w.x){ auto J=dense(f.gradient_x(u,n,q.z),N*D,R,g); sx::ok("x_well_formed",g); if(g) for(int i=0;i<R;i++) for(int k:q.xs) for(int d=0;d<D;d++) sx::deriv(sx::nm("dr_dx",k*D+d,i),J[k*D+d][i],r(i),sx::real(sx::nm("x",k,d),-0.125,0.125)); }
  if(w.ws){ // cell-wise matrices: their sums over the cells are the derivatives
    auto A=f.gradient_n_workset(u,n,q.z), B=f.gradient_z_workset(u,n,q.z), X=f.gradient_x_workset(u,n,q.z); std::vector<Vec> a(R,Vec(C,0.0)),b(R,Vec(N,0.0)),x(R,Vec(N*D,0.0));
    sx::ok("shape",(int)A.extent(0)==q.m.NC&&(int)A.extent(1)==dof*(D+1)&&(int)A.extent(2)==K*(D+1)&&(int)B.extent(2)==D+1&&(int)X.extent(2)==D*(D+1));
    for(int c=0;c<q.m.NC;c++) for(int p=0;p<=D;p++) for(int i=0;i<dof;i++) for(int s=0;s<=D;s++){ int I=q.m.v(c,p)*dof+i,S=q.m.v(c,s); for(int j=0;j<K;j++) a[I][S*K+j]+=A(c,p*dof+i,s*K+j); b[I][S]+=B(c,p*dof+i,s); for(int j=0;j<D;j++) x[I][S*D+j]+=X(c,p*dof+i,s*D+j); }
    for(int i=0;i<R;i++){ for(int j=0;j<C;j++) sx::deriv(sx::nm("cells_n",i,j),a[i][j],r(i),n(j)); for(int j=0;j<N;j++) sx::deriv(sx::nm("cells_z",i,j),b[i][j],r(i),q.z(j)); for(int k:q.xs) for(int d=0;d<D;d++) sx::deriv(sx::nm("cells_x",i,k*D+d),x[i][k*D+d],r(i),sx::real(sx::nm("x",k,d),-0.125,0.125)); } } }
