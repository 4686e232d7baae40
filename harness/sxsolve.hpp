// Linear solver stand-in for problem-level checks: solves exactly the system the problem hands over, whatever its symmetry (unknowns with a
// single-entry row first, the rest by Cramer's rule).  The real solvers (Epetra, Tpetra, AmgX) are third-party; the property is about
// what the problem assembles, constrains, solves for and combines.
#pragma once
#include "sxcrs.hpp"
#include <map>
#include "alg/PlatoSolverFactory.hpp"
namespace sx {
  inline double det(const Dense& M,int r,unsigned cols,std::map<unsigned,double>& memo){ int n=M.size(); if(r==n) return 1.0; auto it=memo.find(cols); if(it!=memo.end()) return it->second; double s=0; int sg=1; for(int j=0;j<n;j++) if(cols>>j&1){ if(!sx_plain_zero(M[r][j])){ double d=M[r][j]*det(M,r+1,cols&~(1u<<j),memo); s=sg>0?s+d:s-d; } sg=-sg; } memo[cols]=s; return s; }
  inline double det(const Dense& M){ std::map<unsigned,double> m; return det(M,0,(1u<<M.size())-1,m); }
  inline int& solves(){ static int n=0; return n; }
  struct Exact : public Plato::AbstractSolver { void solve(Plato::CrsMatrix<Plato::OrdinalType> A,Plato::ScalarVector X,Plato::ScalarVector B) override { solves()++; int N=B.size(); bool good=true; auto M=dense(Teuchos::rcp(&A,false),N,N,good); sx::ok("solver_matrix",good); sx::ieq("solver_x",X.size(),N); if(!good) return;
    std::vector<double> b(N); for(int i=0;i<N;i++) b[i]=B(i); std::vector<char> done(N,0),used(N,0);
    for(int pass=0,again=1;again&&pass<N;pass++){ again=0; for(int i=0;i<N;i++) if(!used[i]){ int c=-1,n=0; for(int j=0;j<N;j++) if(!done[j]&&!sx_plain_zero(M[i][j])){ n++; c=j; } if(n==1){ double v=b[i]; for(int j=0;j<N;j++) if(done[j]&&!sx_plain_zero(M[i][j])) v-=M[i][j]*X(j); X(c)=v/M[i][c]; done[c]=used[i]=1; again=1; } } }
    std::vector<int> R,C; for(int i=0;i<N;i++){ if(!used[i]) R.push_back(i); if(!done[i]) C.push_back(i); } int n=R.size(); if(!n) return; Dense K=zeros(n,n); std::vector<double> r(n);
    for(int i=0;i<n;i++){ r[i]=b[R[i]]; for(int j=0;j<N;j++) if(done[j]&&!sx_plain_zero(M[R[i]][j])) r[i]-=M[R[i]][j]*X(j); for(int j=0;j<n;j++) K[i][j]=M[R[i]][C[j]]; }
    double D=det(K); for(int j=0;j<n;j++){ Dense Q=K; for(int i=0;i<n;i++) Q[i][j]=r[i]; X(C[j])=det(Q)/D; } } };
}
namespace Plato { rcp<AbstractSolver> SolverFactory::create(Omega_h::Mesh&,Comm::Machine,int){ return std::make_shared<sx::Exact>(); }
namespace Comm { Machine::Machine(){} } }
