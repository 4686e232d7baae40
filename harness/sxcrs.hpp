// Helpers: block CRS matrices with a concrete graph and symbolic entries, and their dense meaning.
#pragma once
#include "sxmain.hpp"
#include "PlatoStaticsTypes.hpp"
typedef std::vector<std::vector<int>> Graph;                 // block row -> block columns
typedef std::vector<std::vector<double>> Dense;
typedef Teuchos::RCP<Plato::CrsMatrixType> Mat;
inline Dense zeros(int r,int c){ return Dense(r,std::vector<double>(c,0.0)); }
// block (i,k-th column) entries named n_<crs index>_<local row>_<local col>
inline Mat crs(const char* n,const Graph& g,int ncolBlocks,int rb,int cb,Dense& d,double lo=-10,double hi=10,bool sym=false,bool withDims=true){
  int nr=g.size(),nnz=0; for(auto&x:g) nnz+=x.size();
  Plato::CrsMatrixType::RowMapVector rm("rm",nr+1); Plato::CrsMatrixType::OrdinalVector ci("ci",nnz); Plato::CrsMatrixType::ScalarVector e("e",nnz*rb*cb);
  d=zeros(nr*rb,ncolBlocks*cb); int k=0;
  for(int i=0;i<nr;i++){ rm(i)=k; for(int c:g[i]){ ci(k)=c; for(int a=0;a<rb;a++)for(int b=0;b<cb;b++){ int I=i*rb+a,J=c*cb+b; double v; if(sym && I>J) v=sx::real(std::string(n)+sx::nm("s",J,I),lo,hi); else v= sym? sx::real(std::string(n)+sx::nm("s",I,J),lo,hi) : sx::real(sx::nm(n,k,a,b),lo,hi); e((k*rb+a)*cb+b)=v; d[I][J]=v; } k++; } } rm(nr)=k;
  if(withDims) return Teuchos::rcp(new Plato::CrsMatrixType(rm,ci,e,nr*rb,ncolBlocks*cb,rb,cb));
  return Teuchos::rcp(new Plato::CrsMatrixType(rm,ci,e,rb,cb));
}
// dense meaning of a CRS matrix (duplicates would add up); reports malformed structure
inline Dense dense(const Mat& m,int nrows,int ncols,bool& good){
  Dense d=zeros(nrows,ncols); good=true; auto rm=m->rowMap(); auto ci=m->columnIndices(); auto e=m->entries(); int rb=m->numRowsPerBlock(),cb=m->numColsPerBlock(); int nr=nrows/rb;
  if((int)rm.size()!=nr+1||rm(0)!=0){ good=false; return d; }
  for(int i=0;i<nr;i++){ if(rm(i+1)<rm(i)||rm(i+1)>(int)ci.size()||(size_t)(rm(i+1)*rb*cb)>e.size()){ good=false; return d; }
    for(int k=rm(i);k<rm(i+1);k++){ int c=ci(k); if(c<0||c*cb>=ncols){ good=false; return d; } for(int a=0;a<rb;a++)for(int b=0;b<cb;b++) d[i*rb+a][c*cb+b]+=e((k*rb+a)*cb+b); } }
  return d;
}
inline void sameMat(const char* l,const Mat& m,const Dense& r){ bool g; Dense d=dense(m,r.size(),r.empty()?0:r[0].size(),g); sx::ok(std::string(l)+"_well_formed",g); if(!g) return; for(size_t i=0;i<r.size();i++)for(size_t j=0;j<r[i].size();j++) sx::eq(sx::nm(l,i,j),d[i][j],r[i][j]); }
inline Dense mul(const Dense& a,const Dense& b){ Dense r=zeros(a.size(),b[0].size()); for(size_t i=0;i<a.size();i++)for(size_t j=0;j<b[0].size();j++)for(size_t k=0;k<b.size();k++) r[i][j]+=a[i][k]*b[k][j]; return r; }
inline Plato::ScalarVector svec(const char* n,int N,std::vector<double>& r,double lo=-10,double hi=10){ Plato::ScalarVector v(std::string(n),N); r.resize(N); for(int i=0;i<N;i++){ v(i)=sx::real(sx::nm(n,i),lo,hi); r[i]=v(i);} return v; }
inline void sameVec(const char* l,const Plato::ScalarVector& v,const std::vector<double>& r){ for(size_t i=0;i<r.size();i++) sx::eq(sx::nm(l,i),v(i),r[i]); }
