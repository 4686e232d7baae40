// Gather and scatter: worksets hold the nodal values of each cell, assembly adds every cell's contribution exactly once, and the matrix graph has room for all of them.
#include "sxmesh.hpp"
#include "SimplexPlasticity.hpp"
#include "SimplexMechanics.hpp"
#include "SimplexThermomechanics.hpp"
#include "SimplexFadTypes.hpp"
#include "ImplicitFunctors.hpp"
#include "WorksetBase.hpp"
#define S1(n,...) static void n(){ __VA_ARGS__; } SX_TSCENARIO(n,n)
typedef Teuchos::ParameterList PL;
template<class P> struct WB : Plato::WorksetBase<P> { typedef Plato::WorksetBase<P> B; WB(Omega_h::Mesh& m):B(m){} using typename B::StateFad; using typename B::LocalStateFad; using typename B::NodeStateFad; using typename B::ControlFad; using typename B::ConfigFad; using B::mGlobalStateEntryOrdinal; using B::mControlEntryOrdinal; using B::mConfigEntryOrdinal; };
template<int D> struct Dm { Msh<D> m; PL p; std::shared_ptr<Plato::SpatialModel> sm; Dm(const char* set,std::vector<int> xs={}):m(xs){ at(p,"Spatial Model/Domains/Q").set("Element Block",set).set("Material Model","mA"); sm=std::make_shared<Plato::SpatialModel>(m.mesh,m.sets,p); } const Plato::SpatialDomain& d(){ return sm->Domains[0]; } int nc(){ return d().numCells(); } int cell(int k){ return d().cellOrdinals()[k]; } };
template<class F> void seeded(const std::string& l,const F& f,double v,int k,int n){ sx::eq(l,f.val(),v); sx::ieq(l+"_size",f.size(),n); for(int j=0;j<n;j++) sx::eq(l+sx::nm("_d",j),f.dx(j),j==k?1.0:0.0); }
// ---------------------------------------------------------------- gather
template<class P,int D> void gather(const char* set){ Dm<D> q(set); auto& m=q.m; WB<P> w(m.mesh); const int per=P::mNumDofsPerNode,loc=P::mNumLocalDofsPerCell,ns=P::mNumNodeStatePerNode; bool dom=set[0]!='-'; (void)dom;
  auto u=vec("u",m.N*per,-5,5); auto z=vec("z",m.N,0,1); auto c=vec("c",m.NC*loc,-5,5); auto s=vec("s",m.N*ns,-5,5); int nc=q.nc();
  for(int both=0;both<2;both++){ int n=both?m.NC:nc; std::string t=both?"all_":"dom_"; auto C=[&](int k){ return both?k:q.cell(k); };
    Plato::ScalarMultiVector uw("uw",n,per*(D+1)),zw("zw",n,D+1),sw("sw",n,ns*(D+1)),cw("cw",n,loc); Plato::ScalarArray3D xw("xw",n,D+1,D);
    Plato::ScalarMultiVectorT<typename WB<P>::StateFad> uf("uf",n,per*(D+1)); Plato::ScalarMultiVectorT<typename WB<P>::ControlFad> zf("zf",n,D+1); Plato::ScalarMultiVectorT<typename WB<P>::NodeStateFad> sf("sf",n,ns*(D+1)); Plato::ScalarMultiVectorT<typename WB<P>::LocalStateFad> cf("cf",n,loc); Plato::ScalarArray3DT<typename WB<P>::ConfigFad> xf("xf",n,D+1,D);
    if(both){ w.worksetState(u,uw); w.worksetState(u,uf); w.worksetControl(z,zw); w.worksetControl(z,zf); w.worksetConfig(xw); w.worksetConfig(xf); w.worksetNodeState(s,sw); w.worksetNodeState(s,sf); w.worksetLocalState(c,cw); w.worksetLocalState(c,cf); }
    else { auto& d=q.d(); w.worksetState(u,uw,d); w.worksetState(u,uf,d); w.worksetControl(z,zw,d); w.worksetControl(z,zf,d); w.worksetConfig(xw,d); w.worksetConfig(xf,d); w.worksetNodeState(s,sw,d); w.worksetNodeState(s,sf,d); w.worksetLocalState(c,cw,d); w.worksetLocalState(c,cf,d); }
    for(int k=0;k<n;k++){ int e=C(k); for(int a=0;a<=D;a++){ int v=m.v(e,a); for(int i=0;i<per;i++){ sx::eq(t+sx::nm("u",k,a,i),uw(k,a*per+i),u(v*per+i)); seeded(t+sx::nm("uf",k,a,i),uf(k,a*per+i),u(v*per+i),a*per+i,per*(D+1)); }
        sx::eq(t+sx::nm("z",k,a),zw(k,a),z(v)); seeded(t+sx::nm("zf",k,a),zf(k,a),z(v),a,D+1);
        for(int i=0;i<ns;i++){ sx::eq(t+sx::nm("s",k,a,i),sw(k,a*ns+i),s(v*ns+i)); seeded(t+sx::nm("sf",k,a,i),sf(k,a*ns+i),s(v*ns+i),a*ns+i,ns*(D+1)); }
        for(int i=0;i<D;i++){ sx::eq(t+sx::nm("x",k,a,i),xw(k,a,i),m.x[v][i]); seeded(t+sx::nm("xf",k,a,i),xf(k,a,i),m.x[v][i],a*D+i,D*(D+1)); } }
      for(int i=0;i<loc;i++){ sx::eq(t+sx::nm("c",k,i),cw(k,i),c(e*loc+i)); seeded(t+sx::nm("cf",k,i),cf(k,i),c(e*loc+i),i,loc); } } } }
S1(gather_2d, gather<Plato::SimplexPlasticity<2>,2>("rev")) S1(gather_one_2d, gather<Plato::SimplexPlasticity<2>,2>("A")) S1(gather_3d, gather<Plato::SimplexPlasticity<3>,3>("rev"))
// ---------------------------------------------------------------- scatter of vectors
template<class P,int D> void scatter(const char* set){ Dm<D> q(set); auto& m=q.m; WB<P> w(m.mesh); const int per=P::mNumDofsPerNode; int nc=q.nc(); typedef typename WB<P>::StateFad UF; typedef typename WB<P>::ControlFad ZF; typedef typename WB<P>::ConfigFad XF;
  auto R=[&](const char* n,int k,int j){ return sx::real(sx::nm(n,k,j),-3,3); };
  Plato::ScalarMultiVector r("r",nc,per*(D+1)),ra("ra",m.NC,per*(D+1)),za("za",m.NC,D+1),xa("xa",m.NC,D*(D+1)); Plato::ScalarVectorT<UF> gu("gu",m.NC); Plato::ScalarVectorT<ZF> gz("gz",m.NC),gzd("gzd",nc); Plato::ScalarVectorT<XF> gx("gx",m.NC),gxd("gxd",nc); Plato::ScalarVectorT<UF> gud("gud",nc);
  for(int k=0;k<nc;k++){ for(int j=0;j<per*(D+1);j++) r(k,j)=R("r",k,j); gud(k)=UF(per*(D+1),R("v",k,0)); for(int j=0;j<per*(D+1);j++) gud(k).fastAccessDx(j)=R("gud",k,j); gzd(k)=ZF(D+1,0.0); for(int j=0;j<D+1;j++) gzd(k).fastAccessDx(j)=R("gzd",k,j); gxd(k)=XF(D*(D+1),0.0); for(int j=0;j<D*(D+1);j++) gxd(k).fastAccessDx(j)=R("gxd",k,j); }
  for(int k=0;k<m.NC;k++){ for(int j=0;j<per*(D+1);j++) ra(k,j)=R("ra",k,j); for(int j=0;j<D+1;j++) za(k,j)=R("za",k,j); for(int j=0;j<D*(D+1);j++) xa(k,j)=R("xa",k,j); gu(k)=UF(per*(D+1),R("w",k,0)); for(int j=0;j<per*(D+1);j++) gu(k).fastAccessDx(j)=R("gu",k,j); gz(k)=ZF(D+1,0.0); for(int j=0;j<D+1;j++) gz(k).fastAccessDx(j)=R("gz",k,j); gx(k)=XF(D*(D+1),0.0); for(int j=0;j<D*(D+1);j++) gx(k).fastAccessDx(j)=R("gx",k,j); }
  auto out=[&](const char* n,int N){ return vec(n,N,-1,1); };
  auto chk=[&](const char* n,const Plato::ScalarVector& o,int per_,int cells,std::function<int(int)> C,std::function<double(int,int)> val){ Vec e(m.N*per_); for(size_t i=0;i<e.size();i++) e[i]=sx::real(sx::nm(n,i),-1,1); for(int k=0;k<cells;k++) for(int a=0;a<=D;a++) for(int i=0;i<per_;i++) e[m.v(C(k),a)*per_+i]+=val(k,a*per_+i); for(size_t i=0;i<e.size();i++) sx::eq(sx::nm((std::string("o")+n).c_str(),i),o(i),e[i]); };
  auto id=[](int k){ return k; }; auto cd=[&](int k){ return q.cell(k); };
  { auto o=out("oA",m.N*per); w.assembleResidual(r,o,q.d()); chk("oA",o,per,nc,cd,[&](int k,int j){ return r(k,j); }); }
  { auto o=out("oB",m.N*per); w.assembleResidual(ra,o); chk("oB",o,per,m.NC,id,[&](int k,int j){ return ra(k,j); }); }
  { auto o=out("oC",m.N*per); w.assembleVectorGradientU(ra,o); chk("oC",o,per,m.NC,id,[&](int k,int j){ return ra(k,j); }); }
  { auto o=out("oD",m.N*per); w.assembleVectorGradientFadU(gu,o); chk("oD",o,per,m.NC,id,[&](int k,int j){ return gu(k).dx(j); }); }
  { auto o=out("oE",m.N*D); w.assembleVectorGradientX(xa,o); chk("oE",o,D,m.NC,id,[&](int k,int j){ return xa(k,j); }); }
  { auto o=out("oF",m.N*D); w.assembleVectorGradientFadX(gx,o); chk("oF",o,D,m.NC,id,[&](int k,int j){ return gx(k).dx(j); }); }
  { auto o=out("oG",m.N); w.assembleScalarGradientZ(za,o); chk("oG",o,1,m.NC,id,[&](int k,int j){ return za(k,j); }); }
  { auto o=out("oH",m.N); w.assembleScalarGradientFadZ(gz,o); chk("oH",o,1,m.NC,id,[&](int k,int j){ return gz(k).dx(j); }); }
  { auto o=out("oI",m.N*per); Plato::assemble_vector_gradient_fad<D+1,per>(q.d(),w.mGlobalStateEntryOrdinal,gud,o); chk("oI",o,per,nc,cd,[&](int k,int j){ return gud(k).dx(j); }); }
  { auto o=out("oJ",m.N); Plato::assemble_scalar_gradient_fad<D+1>(q.d(),w.mControlEntryOrdinal,gzd,o); chk("oJ",o,1,nc,cd,[&](int k,int j){ return gzd(k).dx(j); }); }
  { auto o=out("oK",m.N*D); Plato::assemble_vector_gradient_fad<D+1,D>(q.d(),w.mConfigEntryOrdinal,gxd,o); chk("oK",o,D,nc,cd,[&](int k,int j){ return gxd(k).dx(j); }); }
  { Plato::ScalarVector sc("sc",m.NC); double s=0,v=0; for(int k=0;k<m.NC;k++){ sc(k)=R("sc",k,0); s+=sc(k); v+=gu(k).val(); } sx::eq("local_sum",Plato::local_result_sum<Plato::Scalar>(m.NC,sc),s); double a=Plato::assemble_scalar_func_value<Plato::Scalar>(m.NC,gu); sx::eq("fad_sum",a,v); }
  { Plato::ScalarMultiVector in("in",nc,5),in2("in2",m.NC,5); Plato::ScalarVector o("o",m.NC*5),o2("o2",m.NC*5); for(int k=0;k<nc;k++) for(int j=0;j<5;j++) in(k,j)=R("in",k,j); for(int k=0;k<m.NC;k++) for(int j=0;j<5;j++) in2(k,j)=R("in2",k,j); for(int k=0;k<m.NC*5;k++) o(k)=sx::real(sx::nm("oldf",k),-1,1);
    Plato::flatten_vector_workset<5>(q.d(),in,o); Plato::flatten_vector_workset<5>(m.NC,in2,o2); Vec e(m.NC*5); for(int k=0;k<m.NC*5;k++) e[k]=sx::real(sx::nm("oldf",k),-1,1); for(int k=0;k<nc;k++) for(int j=0;j<5;j++) e[q.cell(k)*5+j]=in(k,j); for(int k=0;k<m.NC*5;k++){ sx::eq(sx::nm("flat_dom",k),o(k),e[k]); sx::eq(sx::nm("flat_all",k),o2(k),in2(k/5,k%5)); } }
  { Plato::ScalarMultiVector o("o",m.NC,per*(D+1)),o2("o2",m.NC,per*(D+1)); Plato::transform_ad_type_to_pod_2Dview<per*(D+1)>(gu,o); Plato::transform_ad_type_to_pod_2Dview<per*(D+1)>(q.d(),gud,o2); for(int k=0;k<m.NC;k++) for(int j=0;j<per*(D+1);j++) sx::eq(sx::nm("pod",k,j),o(k,j),gu(k).dx(j)); for(int k=0;k<nc;k++) for(int j=0;j<per*(D+1);j++) sx::eq(sx::nm("pod_dom",k,j),o2(q.cell(k),j),gud(k).dx(j)); } }
S1(scatter_2d, scatter<Plato::SimplexMechanics<2>,2>("rev")) S1(scatter_one_2d, scatter<Plato::SimplexThermomechanics<2>,2>("A")) S1(scatter_3d, scatter<Plato::SimplexMechanics<3>,3>("rev")) S1(scatter_1d, scatter<Plato::SimplexMechanics<1>,1>("rev"))
// ---------------------------------------------------------------- matrices
template<int D,int I,int J> void graph(){ Msh<D> m; auto a=Plato::CreateBlockMatrix<Plato::CrsMatrixType,I,J>(&m.mesh); sx::ieq("rows",a->numRows(),m.N*I); sx::ieq("cols",a->numCols(),m.N*J); sx::ieq("rpb",a->numRowsPerBlock(),I); sx::ieq("cpb",a->numColsPerBlock(),J); sx::ok("block",a->isBlockMatrix()||I*J==1);
  std::vector<std::vector<int>> want(m.N); for(int i=0;i<m.N;i++) for(int j=0;j<m.N;j++){ bool in=i==j; for(int c=0;c<m.NC;c++){ bool x=false,y=false; for(int n=0;n<=D;n++){ x=x||m.v(c,n)==i; y=y||m.v(c,n)==j; } in=in||(x&&y); } if(in) want[i].push_back(j); }
  auto rm=a->rowMap(); auto ci=a->columnIndices(); int k=0; sx::ieq("rowmap_size",rm.size(),m.N+1); for(int i=0;i<m.N;i++){ sx::ieq(sx::nm("row",i),rm(i),k); k+=want[i].size(); } sx::ieq("nnz",ci.size(),k); sx::ieq("last",rm(m.N),k); sx::ieq("entries",a->entries().size(),k*I*J); if((int)ci.size()==k){ int p=0; for(int i=0;i<m.N;i++) for(int j:want[i]) { sx::ieq(sx::nm("col",p),ci(p),j); p++; } }
  auto e=a->entries(); for(size_t i=0;i<e.size();i++) sx::eq(sx::nm("zero",i),e(i),0.0); }
template<int D,int I> void graphPlain(){ Msh<D> m; auto a=Plato::CreateMatrix<Plato::CrsMatrixType,I>(&m.mesh); auto b=Plato::CreateBlockMatrix<Plato::CrsMatrixType,I,I>(&m.mesh); auto rm=a->rowMap(),rb=b->rowMap(); auto ci=a->columnIndices(),cb=b->columnIndices(); sx::ieq("rowmap_size",rm.size(),m.N*I+1); int k=0; bool okk=true; for(int n=0;n<m.N;n++) for(int i=0;i<I;i++){ okk=okk&&rm(n*I+i)==k; for(int q=rb(n);q<rb(n+1);q++) for(int j=0;j<I;j++){ okk=okk&&k<(int)ci.size()&&ci(k)==cb(q)*I+j; k++; } } sx::ok("structure",okk&&rm(m.N*I)==k&&(int)ci.size()==k&&(int)a->entries().size()==k); }
S1(graph_1d, graph<1,1,1>(); graphPlain<1,2>()) S1(graph_2d, graph<2,2,2>(); graphPlain<2,2>()) S1(graph_rect_2d, graph<2,1,3>()) S1(graph_3d, graph<3,3,3>(); graphPlain<3,3>()) S1(graph_rect_3d, graph<3,3,4>())
// every (cell, row, column) contribution lands once at the row and column of its degrees of freedom; existing entries are kept
template<class P,int D,int I,int J> void matrix(const char* set){ Dm<D> q(set); auto& m=q.m; WB<P> w(m.mesh); int nc=q.nc(); const int RI=I*(D+1),RJ=J*(D+1); typedef Sacado::Fad::SFad<Plato::Scalar,RJ> FJ; typedef Sacado::Fad::SFad<Plato::Scalar,RI> FI;
  auto prior=[&](Mat a,const char* n){ auto e=a->entries(); for(size_t i=0;i<e.size();i++) e(i)=sx::real(sx::nm(n,i),-1,1); };
  auto was=[&](Mat a,const char* n,int r,int c){ auto e=a->entries(); Plato::CrsMatrixType::ScalarVector s("s",e.size()); for(size_t i=0;i<e.size();i++){ s(i)=e(i); e(i)=sx::real(sx::nm(n,i),-1,1); } bool g; auto d=dense(a,r,c,g); for(size_t i=0;i<e.size();i++) e(i)=s(i); return d; };
  auto fill=[&](const char* n,int cells){ Plato::ScalarMultiVectorT<FJ> f("f",cells,RI); for(int k=0;k<cells;k++) for(int r=0;r<RI;r++){ f(k,r)=FJ(RJ,0.0); for(int c=0;c<RJ;c++) f(k,r).fastAccessDx(c)=sx::real(sx::nm(n,k,r,c),-3,3); } return f; };
  auto gd=[&](int cell,int d,int per){ return m.v(cell,d/per)*per+d%per; };
  auto chk=[&](const char* n,Mat a,Dense e,bool tr,int cells,std::function<int(int)> C,const char* src){ for(int k=0;k<cells;k++) for(int r=0;r<RI;r++) for(int c=0;c<RJ;c++){ double v=sx::real(sx::nm(src,k,r,c),-3,3); int gi=gd(C(k),r,I),gj=gd(C(k),c,J); if(tr) e[gj][gi]+=v; else e[gi][gj]+=v; } sameMat(n,a,e); };
  auto id=[](int k){ return k; }; auto cd=[&](int k){ return q.cell(k); };
  { Mat a=Plato::CreateBlockMatrix<Plato::CrsMatrixType,I,J>(&m.mesh); prior(a,"pa"); Plato::BlockMatrixEntryOrdinal<D,I,J> o(a,&m.mesh); auto e=a->entries(); auto f=fill("ja",nc); w.assembleJacobianFad(RI,RJ,o,f,e,q.d()); chk("JA",a,was(a,"pa",m.N*I,m.N*J),false,nc,cd,"ja"); }
  { Mat a=Plato::CreateBlockMatrix<Plato::CrsMatrixType,I,J>(&m.mesh); Plato::BlockMatrixEntryOrdinal<D,I,J> o(a,&m.mesh); auto e=a->entries(); auto f=fill("jb",m.NC); w.assembleJacobianFad(RI,RJ,o,f,e); chk("JB",a,zeros(m.N*I,m.N*J),false,m.NC,id,"jb"); }
  { Mat a=Plato::CreateBlockMatrix<Plato::CrsMatrixType,J,I>(&m.mesh); prior(a,"pc"); Plato::BlockMatrixEntryOrdinal<D,J,I> o(a,&m.mesh); auto e=a->entries(); auto f=fill("jc",nc); w.assembleTransposeJacobian(RI,RJ,o,f,e,q.d()); chk("JC",a,was(a,"pc",m.N*J,m.N*I),true,nc,cd,"jc"); }
  { Mat a=Plato::CreateBlockMatrix<Plato::CrsMatrixType,J,I>(&m.mesh); Plato::BlockMatrixEntryOrdinal<D,J,I> o(a,&m.mesh); auto e=a->entries(); auto f=fill("jd",m.NC); w.assembleTransposeJacobian(RI,RJ,o,f,e); chk("JD",a,zeros(m.N*J,m.N*I),true,m.NC,id,"jd"); }
  { Mat a=Plato::CreateBlockMatrix<Plato::CrsMatrixType,I,J>(&m.mesh); Plato::BlockMatrixEntryOrdinal<D,I,J> o(a,&m.mesh); auto e=a->entries(); Plato::ScalarArray3D f("f",m.NC,RI,RJ); for(int k=0;k<m.NC;k++) for(int r=0;r<RI;r++) for(int c=0;c<RJ;c++) f(k,r,c)=sx::real(sx::nm("je",k,r,c),-3,3); w.assembleJacobian(RI,RJ,o,f,e); chk("JE",a,zeros(m.N*I,m.N*J),false,m.NC,id,"je");
    Mat b=Plato::CreateBlockMatrix<Plato::CrsMatrixType,J,I>(&m.mesh); Plato::BlockMatrixEntryOrdinal<D,J,I> ob(b,&m.mesh); auto eb=b->entries(); Plato::assemble_jacobian_transpose_pod(m.NC,RI,RJ,ob,f,eb); chk("JF",b,zeros(m.N*J,m.N*I),true,m.NC,id,"je");
    Plato::ScalarArray3D g("g",m.NC,RI,RJ); auto fa=fill("jb",m.NC); Plato::transform_ad_type_to_pod_3Dview<RI,RJ>(m.NC,fa,g); for(int k=0;k<m.NC;k++) for(int r=0;r<RI;r++) for(int c=0;c<RJ;c++) sx::eq(sx::nm("pod3",k,r,c),g(k,r,c),sx::real(sx::nm("jb",k,r,c),-3,3)); } }
// square matrices: transposed entries and scalar (non-block) matrices
template<class P,int D,int I> void square(){ Dm<D> q("rev"); auto& m=q.m; WB<P> w(m.mesh); const int R=I*(D+1); typedef Sacado::Fad::SFad<Plato::Scalar,R> F; Plato::ScalarMultiVectorT<F> f("f",m.NC,R); Dense e=zeros(m.N*I,m.N*I),t=e; for(int k=0;k<m.NC;k++) for(int r=0;r<R;r++){ f(k,r)=F(R,0.0); for(int c=0;c<R;c++){ double v=sx::real(sx::nm("j",k,r,c),-3,3); f(k,r).fastAccessDx(c)=v; int gi=m.v(k,r/I)*I+r%I,gj=m.v(k,c/I)*I+c%I; e[gi][gj]+=v; t[gj][gi]+=v; } }
  Mat a=Plato::CreateBlockMatrix<Plato::CrsMatrixType,I,I>(&m.mesh); Plato::BlockMatrixTransposeEntryOrdinal<D,I> o(a,&m.mesh); auto ea=a->entries(); w.assembleJacobianFad(R,R,o,f,ea); sameMat("T",a,t);
  Mat b=Plato::CreateMatrix<Plato::CrsMatrixType,I>(&m.mesh); Plato::MatrixEntryOrdinal<D,I> ob(b,&m.mesh); auto eb=b->entries(); w.assembleJacobianFad(R,R,ob,f,eb); sameMat("S",b,e); }
S1(matrix_2d, matrix<Plato::SimplexMechanics<2>,2,2,2>("rev")) S1(matrix_rect_2d, matrix<Plato::SimplexMechanics<2>,2,2,1>("A")) S1(matrix_rect2_2d, matrix<Plato::SimplexThermomechanics<2>,2,3,2>("rev")) S1(matrix_3d, matrix<Plato::SimplexMechanics<3>,3,3,1>("rev")) S1(matrix_1d, matrix<Plato::SimplexMechanics<1>,1,1,1>("rev"))
S1(square_2d, square<Plato::SimplexMechanics<2>,2,2>()) S1(square_3d, square<Plato::SimplexMechanics<3>,3,3>()) S1(square_3_2d, square<Plato::SimplexThermomechanics<2>,2,3>())
// an unknown block name is refused; every domain of the model is kept, in order, with its own cells and material
S1(domains_2d, Msh<2> m; PL p; domains(p,true); Plato::SpatialModel sm(m.mesh,m.sets,p); sx::ieq("count",sm.Domains.size(),2); sx::ok("names",sm.Domains[0].getDomainName()=="First"&&sm.Domains[1].getDomainName()=="Second"&&sm.Domains[0].getMaterialName()=="mA"&&sm.Domains[1].getMaterialName()=="mB"); sx::ieq("n0",sm.Domains[0].numCells(),1); sx::ieq("c0",sm.Domains[0].cellOrdinals()[0],1); sx::ieq("c1",sm.Domains[1].cellOrdinals()[0],0);
  auto bad=[&](std::function<void(PL&)> f){ return sx::throws([&]{ PL q; f(q); Plato::SpatialModel s(m.mesh,m.sets,q); }); }; sx::ok("no_model",bad([](PL&){})); sx::ok("no_domains",bad([](PL& q){ q.sublist("Spatial Model"); })); sx::ok("no_block",bad([](PL& q){ at(q,"Spatial Model/Domains/a").set("Material Model","m"); })); sx::ok("no_material",bad([](PL& q){ at(q,"Spatial Model/Domains/a").set("Element Block","all"); })); sx::ok("unknown_block",bad([](PL& q){ at(q,"Spatial Model/Domains/a").set("Element Block","zz").set("Material Model","m"); })); sx::ok("not_list",bad([](PL& q){ at(q,"Spatial Model/Domains").set("a",1); })))
// per-cell fields of one domain land on that domain's cells; other cells keep what they held
#include "ToMap.hpp"
template<int D> void fields(const char* set){ Dm<D> q(set); auto& m=q.m; int nc=q.nc(); const int R=3,K=2; typedef Sacado::Fad::SFad<Plato::Scalar,K> F; typedef Sacado::Fad::SFad<Plato::Scalar,R> G; auto val=[](int k,int r){ return sx::real(sx::nm("f",k,r),-3,3); }; auto pri=[](int c,int r){ return sx::real(sx::nm("p",c,r),-3,3); }; std::vector<int> pos(m.NC,-1); for(int k=0;k<nc;k++) pos[q.cell(k)]=k;
  Plato::ScalarMultiVector in("in",nc,R),out("out",m.NC,R); Plato::ScalarVector flat("flat",m.NC*R); Plato::ScalarVector s("s",nc); Plato::ScalarArray3D a3("a3",nc,R,K); for(int k=0;k<nc;k++){ s(k)=val(k,0); for(int r=0;r<R;r++){ in(k,r)=val(k,r); for(int j=0;j<K;j++) a3(k,r,j)=val(k,r)+j; } } for(int c=0;c<m.NC;c++) for(int r=0;r<R;r++){ out(c,r)=pri(c,r); flat(c*R+r)=pri(c,r); }
  Plato::flatten_vector_workset<R>(q.d(),in,flat); Plato::assemble_vector_workset<R>(q.d(),in,out); for(int c=0;c<m.NC;c++) for(int r=0;r<R;r++){ double e=pos[c]>=0?val(pos[c],r):pri(c,r); sx::eq(sx::nm("flat",c,r),flat(c*R+r),e); sx::eq(sx::nm("workset",c,r),out(c,r),e); }
  Plato::ScalarVector all("all",nc*R); Plato::flatten_vector_workset<R>(nc,in,all); for(int k=0;k<nc;k++) for(int r=0;r<R;r++) sx::eq(sx::nm("all",k,r),all(k*R+r),val(k,r));
  Plato::ScalarVectorT<G> g("g",nc); Plato::ScalarMultiVectorT<F> h("h",nc,R); for(int k=0;k<nc;k++){ g(k)=G(R,0.0); for(int r=0;r<R;r++){ g(k).fastAccessDx(r)=val(k,r); h(k,r)=F(K,0.0); for(int j=0;j<K;j++) h(k,r).fastAccessDx(j)=val(k,r)*(j+1); } }
  Plato::ScalarMultiVector p2("p2",m.NC,R); Plato::ScalarArray3D p3("p3",m.NC,R,K); for(int c=0;c<m.NC;c++) for(int r=0;r<R;r++){ p2(c,r)=pri(c,r); for(int j=0;j<K;j++) p3(c,r,j)=pri(c,r); } Plato::transform_ad_type_to_pod_2Dview<R>(q.d(),g,p2); Plato::transform_ad_type_to_pod_3Dview<R,K>(q.d(),h,p3); for(int c=0;c<m.NC;c++) for(int r=0;r<R;r++){ sx::eq(sx::nm("pod2",c,r),p2(c,r),pos[c]>=0?val(pos[c],r):pri(c,r)); for(int j=0;j<K;j++) sx::eq(sx::nm("pod3",c,r,j),p3(c,r,j),pos[c]>=0?val(pos[c],r)*(j+1):pri(c,r)); }
  Plato::ScalarMultiVector q2("q2",nc,R); Plato::transform_ad_type_to_pod_2Dview<R>(g,q2); for(int k=0;k<nc;k++) for(int r=0;r<R;r++) sx::eq(sx::nm("pod",k,r),q2(k,r),val(k,r)); Plato::ScalarMultiVector wr("wr",nc+1,R),wc("wc",m.NC,R+1); sx::ok("rows",sx::throws([&]{ Plato::transform_ad_type_to_pod_2Dview<R>(g,wr); })); sx::ok("columns",sx::throws([&]{ Plato::transform_ad_type_to_pod_2Dview<R>(q.d(),g,wc); }));
  // plot fields: first use creates the field, later domains add theirs, incompatible sizes are refused
  Plato::DataMap dm; Plato::toMap(dm,s,"s",q.d()); Plato::toMap(dm,in,"m",q.d()); Plato::toMap(dm,a3,"a",q.d()); sx::ieq("n1",dm.scalarVectors["s"].extent(0),m.NC); sx::ieq("n2",dm.scalarMultiVectors["m"].extent(0),m.NC); sx::ieq("n3",dm.scalarArray3Ds["a"].extent(0),m.NC); sx::ieq("n4",dm.scalarArray3Ds["a"].extent(2),K); for(int c=0;c<m.NC;c++){ sx::eq(sx::nm("ms",c),dm.scalarVectors["s"](c),pos[c]>=0?val(pos[c],0):0.0); for(int r=0;r<R;r++){ sx::eq(sx::nm("mm",c,r),dm.scalarMultiVectors["m"](c,r),pos[c]>=0?val(pos[c],r):0.0); for(int j=0;j<K;j++) sx::eq(sx::nm("ma",c,r,j),dm.scalarArray3Ds["a"](c,r,j),pos[c]>=0?val(pos[c],r)+j:0.0); } }
  PL pb; at(pb,"Spatial Model/Domains/Q").set("Element Block","B").set("Material Model","mA"); Plato::SpatialModel sb(m.mesh,m.sets,pb); Plato::ScalarMultiVector b("b",1,R); for(int r=0;r<R;r++) b(0,r)=sx::real(sx::nm("b",r),-1,1); Plato::toMap(dm,b,"m",sb.Domains[0]); for(int c=0;c<m.NC;c++) for(int r=0;r<R;r++) sx::eq(sx::nm("mb",c,r),dm.scalarMultiVectors["m"](c,r),c==0?sx::real(sx::nm("b",r),-1,1):pos[c]>=0?val(pos[c],r):0.0); Plato::ScalarMultiVector b2("b2",1,R+1); sx::ok("incompatible",sx::throws([&]{ Plato::toMap(dm,b2,"m",sb.Domains[0]); })); Plato::toMap(dm,in,"whole"); sx::eq("whole",dm.scalarMultiVectors["whole"](0,1),val(0,1)); }
S1(fields_2d, fields<2>("rev")) S1(fields_one_2d, fields<2>("A")) S1(fields_3d, fields<3>("A"))
