// C05: prescribed values are imposed on an assembled linear system.
#include "sxcrs.hpp"
#include "ApplyConstraints.hpp"
using namespace Plato; typedef std::vector<double> V;
static const Graph gTri={{0,1},{0,1,2},{1,2}}, gTri4={{0,1},{0,1,2},{1,2,3},{2,3}}, gFull2={{0,1},{0,1}}, gOne={{0}}, gPerm={{2,0},{1},{2,0}}, gStar={{0,1,2,3},{1,0},{0,2},{3,0}};
template<int D,bool BLOCK,int NBC,bool SYM> static void bc(const Graph& g){
  int N=g.size()*D; Dense d; Mat m=crs("m",g,g.size(),D,D,d,-10,10,SYM); V b0,v0; ScalarVector b=svec("b",N,b0), v=svec("v",NBC,v0); double s=sx_real("s",-2,2); LocalOrdinalVector dof("dof",NBC);
  int c[NBC>0?NBC:1]; for(int i=0;i<NBC;i++){ c[i]=sx::int32(sx::nm("dof",i),0,N-1); for(int j=0;j<i;j++) sx_assume(c[i]!=c[j]); dof(i)=c[i]; }
  if(BLOCK) applyBlockConstraints<D>(m,b,dof,v,s); else applyConstraints<D>(m,b,dof,v,s);
  std::vector<int> con(N,-1); for(int i=0;i<NBC;i++) for(int k=0;k<N;k++) if(c[i]==k) con[k]=i;
  Dense r=d; V rb=b0; for(int i=0;i<N;i++){ if(con[i]>=0) rb[i]=s*v0[con[i]]; else for(int j=0;j<N;j++) if(con[j]>=0) rb[i]-=d[i][j]*s*v0[con[j]]; for(int j=0;j<N;j++) if(con[i]>=0||con[j]>=0) r[i][j]= i==j?1.0:0.0; }
  sameMat("matrix",m,r); sameVec("rhs",b,rb); sameVec("values_unchanged",v,v0); for(int i=0;i<NBC;i++) sx::ieq(sx::nm("dofs_unchanged",i),dof(i),c[i]);
}
#define SC(name,...) static void name##_(){ __VA_ARGS__; } SX_TSCENARIO(name,name##_)
SC(plain1_1,(bc<1,false,1,false>(gOne))) SC(plain3_1,(bc<1,false,1,false>(gTri))) SC(plain3_2,(bc<1,false,2,false>(gTri))) SC(plain3_3,(bc<1,false,3,false>(gTri))) SC(plain4_2,(bc<1,false,2,false>(gTri4))) SC(plain4_3,(bc<1,false,3,false>(gTri4))) SC(plain_perm2,(bc<1,false,2,false>(gPerm))) SC(plain_star2,(bc<1,false,2,false>(gStar))) SC(plain_sym3,(bc<1,false,3,true>(gTri4)))
SC(plain_none,(bc<1,false,0,false>(gTri)))
SC(block2_1,(bc<2,true,1,false>(gTri))) SC(block2_2,(bc<2,true,2,false>(gTri))) SC(block2_3,(bc<2,true,3,false>(gFull2))) SC(block3_1,(bc<3,true,1,false>(gTri))) SC(block3_2,(bc<3,true,2,false>(gFull2))) SC(block4_2,(bc<4,true,2,false>(gFull2))) SC(block2_perm2,(bc<2,true,2,false>(gPerm))) SC(block2_sym2,(bc<2,true,2,true>(gTri))) SC(block1_2,(bc<1,true,2,false>(gTri4))) SC(block3_perm1,(bc<3,true,1,false>(gPerm))) SC(block_none,(bc<2,true,0,false>(gTri)))
// default scale is one; the same dof listed twice with the same value
SX_SCENARIO(repeated){ Dense d; Mat m=crs("m",gTri,3,1,1,d); V b0; ScalarVector b=svec("b",3,b0); ScalarVector v("v",2); double g=sx_real("g",-3,3); v(0)=g; v(1)=g; LocalOrdinalVector dof("dof",2); int c=sx_int32("c",0,2); dof(0)=c; dof(1)=c; applyConstraints<1>(m,b,dof,v);
  Dense r=d; V rb=b0; for(int i=0;i<3;i++){ if(i==c) rb[i]=g; else for(int j=0;j<3;j++) if(j==c) rb[i]-=d[i][j]*g; for(int j=0;j<3;j++) if(i==c||j==c) r[i][j]=i==j?1:0; } sameMat("matrix",m,r); sameVec("rhs",b,rb); }
SX_SCENARIO(repeated_block){ Dense d; Mat m=crs("m",gTri,3,2,2,d); V b0; ScalarVector b=svec("b",6,b0); ScalarVector v("v",2); double g=sx_real("g",-3,3); v(0)=g; v(1)=g; LocalOrdinalVector dof("dof",2); int c=sx_int32("c",0,5); dof(0)=c; dof(1)=c; applyBlockConstraints<2>(m,b,dof,v);
  Dense r=d; V rb=b0; for(int i=0;i<6;i++){ if(i==c) rb[i]=g; else for(int j=0;j<6;j++) if(j==c) rb[i]-=d[i][j]*g; for(int j=0;j<6;j++) if(i==c||j==c) r[i][j]=i==j?1:0; } sameMat("matrix",m,r); sameVec("rhs",b,rb); }
