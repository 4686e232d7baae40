// Transient heat and thermomechanical problems.
#pragma once
#include "sxtrans.hpp"
#include "parabolic/Problem.hpp"
#include "parabolic/PhysicsScalarFunction.hpp"
template<class P> std::shared_ptr<Plato::Parabolic::ScalarFunctionBase> Plato::Parabolic::ScalarFunctionBaseFactory<P>::create(Plato::SpatialModel& m,Plato::DataMap& d,Teuchos::ParameterList& p,std::string& n){ return std::make_shared<Plato::Parabolic::PhysicsScalarFunction<P>>(m,d,p,n); }
template<class Ph,int D,class Q> struct Par : Trans<Plato::Parabolic::Problem<Ph>,2,D,Q> { typedef Trans<Plato::Parabolic::Problem<Ph>,2,D,Q> B; double al;
  Par(Q& q,std::vector<Fix> f,std::vector<int> zs,double dt,double al_,int steps):B((at(q.p,"Time Integration").set("Trapezoid Alpha",al_),q),f,zs,dt,steps),al(al_){}
  template<class I> void solved(I init){ auto& q=this->q; q.start(); this->marched([&](int n){ return q.g->value(this->at_(0,n),this->at_(1,n),this->z,this->dt); },init); for(int n=1;n<this->steps;n++) for(int i=0;i<this->R;i++) sx::eq(sx::nm("trapezoid",n,i),this->y(0,n,i),this->y(0,n-1,i)+this->dt*((1-al)*this->y(1,n-1,i)+al*this->y(1,n,i))); } };
