// C04: sparse (block) matrix operations.
#include "sxcrs.hpp"
#include "PlatoMathHelpers.hpp"
#include "PlatoMathFunctors.hpp"
#include "Plato_Solve.hpp"
using namespace Plato; typedef std::vector<double> V;
static const Graph gA={{0,1},{0,1,2},{1,2}}, gFull2={{0,1},{0,1}}, gHole={{1},{},{0,2}}, gOne={{0}}, gUns={{1,0},{2,0},{2,1}}, gRect={{0,2},{1}}, gRectT={{0},{1},{0}}, gWide={{3,0},{1,2}};
static void matvec(const Graph& g,int nc,int rb,int cb,bool fad=false){
  Dense d; Mat m=crs("m",g,nc,rb,cb,d); V x0,y0; ScalarVector x=svec("x",nc*cb,x0), y=svec("y",g.size()*rb,y0); V r=y0; for(size_t i=0;i<d.size();i++)for(int j=0;j<nc*cb;j++) r[i]+=d[i][j]*x0[j];
  MatrixTimesVectorPlusVector(m,x,y); sameVec("y",y,r); sameVec("x_unchanged",x,x0); sameMat("m_unchanged",m,d);
  ScalarVector bad("bad",nc*cb+1), badr("badr",g.size()*rb+1); sx::ok("input_mismatch",sx::throws([&]{ MatrixTimesVectorPlusVector(m,bad,y); })); sx::ok("output_mismatch",sx::throws([&]{ MatrixTimesVectorPlusVector(m,x,badr); })); sameVec("y_after_errors",y,r);
}
static void mv1(){matvec(gA,3,1,1);} static void mv2(){matvec(gHole,3,1,1);} static void mv3(){matvec(gA,3,2,2);} static void mv4(){matvec(gRect,3,1,3);} static void mv5(){matvec(gRectT,2,3,1);} static void mv6(){matvec(gUns,3,2,3);} static void mv7(){matvec(gHole,3,3,2);} static void mv8(){matvec(gWide,4,4,4);}
SX_TSCENARIO(matvec_tri,mv1) SX_TSCENARIO(matvec_hole,mv2) SX_TSCENARIO(matvec_b22,mv3) SX_TSCENARIO(matvec_b13,mv4) SX_TSCENARIO(matvec_b31,mv5) SX_TSCENARIO(matvec_b23_unsorted,mv6) SX_TSCENARIO(matvec_b32_hole,mv7) SX_TSCENARIO(matvec_b44,mv8)
SX_SCENARIO(matvec_ad){ // derivative-carrying vectors
  typedef Sacado::Fad::SFad<double,2> F; Dense d; Mat m=crs("m",gA,3,2,1,d); ScalarVectorT<F> x("x",3), y("y",6); double u=sx_real("u",-3,3), w=sx_real("w",-3,3); F fu(2,0,u), fw(2,1,w); x(0)=fu; x(1)=fu*fw; x(2)=fw*fw; for(int i=0;i<6;i++) y(i)=F(fu*(double)i);
  MatrixTimesVectorPlusVector(m,x,y); for(int i=0;i<6;i++){ sx::eq(sx::nm("v",i),y(i).val(),i*u+d[i][0]*u+d[i][1]*u*w+d[i][2]*w*w); sx::deriv(sx::nm("du",i),y(i).dx(0),y(i).val(),u); sx::deriv(sx::nm("dw",i),y(i).dx(1),y(i).val(),w); }
}
static void rowsum(const Graph& g,int nc,int rb,int cb){
  Dense d; Mat m=crs("m",g,nc,rb,cb,d); V r0; ScalarVector rs=svec("r",g.size()*rb,r0); V r=r0; for(size_t i=0;i<d.size();i++)for(double v:d[i]) r[i]+=v;
  RowSum f(m); for(size_t i=0;i<g.size();i++) f(i,rs); sameVec("sum",rs,r); sameMat("m_unchanged",m,d);
}
static void rs1(){rowsum(gA,3,1,1);} static void rs2(){rowsum(gA,3,2,3);} static void rs3(){rowsum(gHole,3,3,1);} static void rs4(){rowsum(gWide,4,3,3);}
SX_TSCENARIO(rowsum1,rs1) SX_TSCENARIO(rowsum2,rs2) SX_TSCENARIO(rowsum3,rs3) SX_TSCENARIO(rowsum4,rs4)
template<int D> static void invweight(){
  const int NB=3; V s0,b0,x0; ScalarVector s=svec("s",NB*D,s0,0.5,3), b=svec("b",NB*D,b0), x=svec("x",NB*D,x0); double sc=sx_real("sc",-2,2); InverseWeight<D> f;
  for(int i=1;i<NB;i++) f(i,s,b,x,sc); V r=x0; for(int i=D;i<NB*D;i++) r[i]=b0[i]/s0[i]*sc; sameVec("x",x,r); sameVec("s",s,s0); sameVec("b",b,b0);
  ScalarVector y("y",NB*D); f(0,s,b,y); for(int i=0;i<D;i++) sx::eq(sx::nm("unit",i),y(i),b0[i]/s0[i]);
}
SX_TSCENARIO(inverse_weight1,invweight<1>) SX_TSCENARIO(inverse_weight3,invweight<3>)
template<int D> static void rowsummed_solve(){
  Dense d; Mat m=crs("m",gA,3,D,D,d,0.5,4); V b0,x0; ScalarVector b=svec("b",3*D,b0), x=svec("x",3*D,x0); Solve::RowSummed<D>(m,x,b);
  for(int i=0;i<3*D;i++){ double s=0; for(double v:d[i]) s+=v; sx::eq(sx::nm("x",i),x(i)*s,b0[i]); } sameVec("b_unchanged",b,b0); sameMat("m_unchanged",m,d);
}
SX_TSCENARIO(rowsummed_solve1,rowsummed_solve<1>) SX_TSCENARIO(rowsummed_solve2,rowsummed_solve<2>)
static void diaginv(const Graph& g,int nc,int rb,int cb){
  Dense d; Mat m=crs("m",g,nc,rb,cb,d); V s0; ScalarVector s=svec("s",g.size()*rb,s0,0.5,3); DiagonalInverseMultiply f(m); for(size_t i=0;i<g.size();i++) f(i,s); Dense r=d; for(size_t i=0;i<d.size();i++)for(double&v:r[i]) v/=s0[i]; sameMat("scaled",m,r); sameVec("s",s,s0);
}
static void di1(){diaginv(gA,3,1,1);} static void di2(){diaginv(gUns,3,2,3);} static void di3(){diaginv(gHole,3,3,1);}
SX_TSCENARIO(diag_inverse1,di1) SX_TSCENARIO(diag_inverse2,di2) SX_TSCENARIO(diag_inverse3,di3)
static void rsi(const Graph& g1,int nc1,int b1,const Graph& g2,int nc2,int c2){ // second := diag(rowsum(first))^-1 second
  Dense d1,d2; Mat m1=crs("p",g1,nc1,b1,b1,d1,0.5,4), m2=crs("q",g2,nc2,b1,c2,d2); RowSummedInverseMultiply(m1,m2); Dense r=d2;
  for(size_t i=0;i<d1.size();i++){ double s=0; for(double v:d1[i]) s+=v; for(double&v:r[i]) v/=s; } sameMat("scaled",m2,r); sameMat("first",m1,d1);
}
static void ri1(){rsi(gA,3,1,gA,3,1);} static void ri2(){rsi(gA,3,2,gUns,3,3);} static void ri3(){rsi(gA,3,1,gHole,3,2);}
SX_TSCENARIO(rowsum_inverse1,ri1) SX_TSCENARIO(rowsum_inverse2,ri2) SX_TSCENARIO(rowsum_inverse3,ri3)
// block -> plain -> block
static void nonblock(const Graph& g,int nc,int rb,int cb){
  Dense d; Mat m=crs("m",g,nc,rb,cb,d); ScalarVectorT<OrdinalType> rm,cm; ScalarVectorT<double> va; getDataAsNonBlock(m,rm,cm,va);
  Mat p=Teuchos::rcp(new CrsMatrixType(rm,cm,va,d.size(),nc*cb,1,1)); sameMat("plain",p,d); sx::ieq("plain_nnz",va.size(),m->entries().size()); sx::ieq("plain_end",rm(rm.size()-1),va.size());
  Mat q=Teuchos::rcp(new CrsMatrixType(d.size(),nc*cb,rb,cb)); setDataFromNonBlock(q,rm,cm,va); sameMat("back",q,d); sx::ieq("back_nnz",q->entries().size(),m->entries().size());
  bool sorted=true; for(size_t i=0;i<g.size();i++) for(int k=q->rowMap()(i);k+1<q->rowMap()(i+1);k++) if(!(q->columnIndices()(k)<q->columnIndices()(k+1))) sorted=false; sx::ok("back_sorted",sorted); sameMat("source_unchanged",m,d);
}
static void nb1(){nonblock(gA,3,1,1);} static void nb2(){nonblock(gA,3,2,2);} static void nb3(){nonblock(gUns,3,2,3);} static void nb4(){nonblock(gHole,3,3,2);} static void nb5(){nonblock(gRect,3,1,3);} static void nb6(){nonblock(gRectT,2,4,1);} static void nb7(){nonblock(gWide,4,4,4);}
SX_TSCENARIO(nonblock1,nb1) SX_TSCENARIO(nonblock2,nb2) SX_TSCENARIO(nonblock3,nb3) SX_TSCENARIO(nonblock4,nb4) SX_TSCENARIO(nonblock5,nb5) SX_TSCENARIO(nonblock6,nb6) SX_TSCENARIO(nonblock7,nb7)
// one-row-per-block matrix expanded into row `off` of a full block matrix
static void strided(const Graph& g,int nc,int stride,int off,int cb){
  Dense d; Mat m=crs("m",g,nc,1,cb,d); ScalarVectorT<OrdinalType> rm,cm; ScalarVectorT<double> va; getDataAsNonBlock(m,rm,cm,va,stride,off);
  Dense r=zeros(d.size()*stride,nc*cb); for(size_t i=0;i<d.size();i++) r[i*stride+off]=d[i]; Mat p=Teuchos::rcp(new CrsMatrixType(rm,cm,va,r.size(),nc*cb,1,1)); sameMat("plain",p,r);
}
static void st1(){strided(gA,3,2,0,2);} static void st2(){strided(gA,3,3,2,3);} static void st3(){strided(gUns,3,4,3,4);} static void st4(){strided(gHole,3,2,1,1);}
SX_TSCENARIO(strided1,st1) SX_TSCENARIO(strided2,st2) SX_TSCENARIO(strided3,st3) SX_TSCENARIO(strided4,st4)
template<int N> static void sorting(){ // any column order
  ScalarVectorT<OrdinalType> rm("rm",3),cm("cm",2*N); ScalarVectorT<double> va("va",2*N); rm(0)=0; rm(1)=N; rm(2)=2*N; int c0[N]; V v0(2*N);
  for(int i=0;i<N;i++){ c0[i]=sx::int32(sx::nm("c",i),0,7); for(int j=0;j<i;j++) sx_assume(c0[i]!=c0[j]); cm(i)=c0[i]; cm(N+i)=N-i; } for(int i=0;i<2*N;i++){ va(i)=sx::real(sx::nm("v",i),-5,5); v0[i]=va(i); }
  sortColumnEntries(rm,cm,va);
  bool asc=true, kept=true; for(int i=0;i+1<N;i++) asc=asc && cm(i)<cm(i+1) && cm(N+i)<cm(N+i+1);
  for(int i=0;i<N;i++){ bool f=false; for(int j=0;j<N;j++) if(cm(j)==c0[i]){ f=true; sx::eq(sx::nm("value",i,j),va(j),v0[i]); } kept=kept&&f; sx::eq(sx::nm("second",i),va(N+i),v0[2*N-1-i]); }
  sx::ok("ascending",asc); sx::ok("columns_kept",kept);
}
SX_TSCENARIO(sort1,sorting<1>) SX_TSCENARIO(sort2,sorting<2>) SX_TSCENARIO(sort3,sorting<3>)
SX_SCENARIO(unset_dimensions){ Dense d; Mat m=crs("m",gA,3,1,1,d,-1,1,false,false); sx::ok("rows",sx::throws([&]{ m->numRows(); })); sx::ok("cols",sx::throws([&]{ m->numCols(); })); CrsMatrixType e; sx::ok("empty",sx::throws([&]{ e.numRows(); })); sx::ok("block",!e.isBlockMatrix()); sx::ok("block2",CrsMatrixType(4,4,2,2).isBlockMatrix()); sx::ok("block3",CrsMatrixType(4,4,1,2).isBlockMatrix()); sx::ok("block4",!CrsMatrixType(4,4,1,1).isBlockMatrix()); }
SX_SCENARIO(conditional){ double x=sx_real("x",-5,5), y=sx_real("y",-5,5), a=sx_real("a",-5,5), b=sx_real("b",-5,5); double r=conditional_expression(x,y,a,b); if(x>y) sx::eq("greater",r,b); else sx::eq("not_greater",r,a); }
// product and difference of block matrices
static void product(const Graph& g1,int n1,int r1,int k,const Graph& g2,int n2,int c2){
  Dense d1,d2; Mat a=crs("a",g1,n1,r1,k,d1), b=crs("b",g2,n2,k,c2,d2); Mat c=Teuchos::rcp(new CrsMatrixType(d1.size(),n2*c2,r1,c2)); MatrixMatrixMultiply(a,b,c); sameMat("product",c,mul(d1,d2)); sameMat("a",a,d1); sameMat("b",b,d2);
  Mat bad=Teuchos::rcp(new CrsMatrixType(d1.size()+1,n2*c2,1,1)), bad2=Teuchos::rcp(new CrsMatrixType(d1.size(),n2*c2+1,1,1)); sx::ok("bad_rows",sx::throws([&]{ MatrixMatrixMultiply(a,b,bad); })); sx::ok("bad_cols",sx::throws([&]{ MatrixMatrixMultiply(a,b,bad2); }));
}
static void pr1(){product(gA,3,1,1,gA,3,1);} static void pr2(){product(gA,3,2,1,gA,3,2);} static void pr3(){product(gRect,3,1,3,gA,3,3);} static void pr4(){product(gA,3,2,2,gUns,3,2);} static void pr5(){product(gHole,3,1,2,gA,3,1);}
SX_TSCENARIO(product1,pr1) SX_TSCENARIO(product2,pr2) SX_TSCENARIO(product3,pr3) SX_TSCENARIO(product4,pr4) SX_TSCENARIO(product5,pr5)
static void minus(const Graph& g1,const Graph& g2,int nb,int off){
  Dense d1,d2; Mat a=crs("a",g1,3,nb,nb,d1), b=crs("b",g2,3,1,nb,d2); MatrixMinusMatrix(a,b,off); Dense r=d1; for(size_t i=0;i<d2.size();i++)for(size_t j=0;j<d2[i].size();j++) r[i*nb+off][j]-=d2[i][j]; sameMat("difference",a,r); sameMat("b",b,d2);
  Dense dw; Mat w=crs("w",gRectT,2,1,nb,dw); sx::ok("shape",sx::throws([&]{ MatrixMinusMatrix(a,w,off); }));
}
static void mi1(){minus(gA,gA,2,0);} static void mi2(){minus(gA,gA,2,1);} static void mi3(){minus(gA,{{0},{1},{2}},3,2);} static void mi4(){minus({{0},{1},{2}},gUns,2,1);} static void mi5(){minus(gUns,gA,4,3);}
SX_TSCENARIO(minus1,mi1) SX_TSCENARIO(minus2,mi2) SX_TSCENARIO(minus3,mi3) SX_TSCENARIO(minus4,mi4) SX_TSCENARIO(minus5,mi5)
// A := A - B diag(rowsum C)^-1 D  (row `off` of each block of A)
static void condense(int nb,int off){
  Dense dA,dB,dC,dD; Mat A=crs("A",gA,3,nb,nb,dA), B=crs("B",gA,3,1,nb,dB), C=crs("C",gA,3,nb,nb,dC,0.5,4), D=crs("D",gA,3,nb,nb,dD); Condense(A,B,C,D,off);
  Dense s=dD; for(size_t i=0;i<s.size();i++){ double t=0; for(double v:dC[i]) t+=v; for(double&v:s[i]) v/=t; } Dense p=mul(dB,s), r=dA; for(size_t i=0;i<p.size();i++)for(size_t j=0;j<p[i].size();j++) r[i*nb+off][j]-=p[i][j]; sameMat("A",A,r); sameMat("B",B,dB); sameMat("C",C,dC);
}
static void co1(){condense(2,1);} static void co2(){condense(3,0);}
SX_TSCENARIO(condense2,co1) SX_TSCENARIO(condense3,co2)
