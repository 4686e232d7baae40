seed('S21_body_load_ordinal','C22',[('src/BodyLoads.hpp','auto tDetElemJacobian = fabs(tJacobianDet(tCellOrdinal));','auto tDetElemJacobian = fabs(tJacobianDet(aCellOrdinal));')],
 'a body load on a domain whose cells are not the first cells of the mesh, and cells of different size','the body load is integrated with the volume of another cell',
 '''#include "sxell.hpp"
#include "Mechanics.hpp"
static void run(){ Ell<Plato::Mechanics,2> q({1,2},true,SIMP,2); elasticMaterials(q.p); q.body(1); q.go(); Plato::blas1::fill(0.0,q.u); Vec o(8,0.0); q.addBody(o,1,-1.0); q.same(o); }''',mesh=True)
seed('S22_transposed_block','C23',[('src/ImplicitFunctors.hpp','return entryOrdinal*DofsPerNode*DofsPerNode+jDof*DofsPerNode+iDof;','return entryOrdinal*DofsPerNode*DofsPerNode+iDof*DofsPerNode+jDof;')],
 'a transposed state Jacobian of a coupled problem whose node blocks are not symmetric (thermomechanics)','gradient_u_T transposes the block structure but not the blocks, so adjoints of coupled problems are wrong',
 '''#include "sxell.hpp"
#include "MaterialModel.cpp"
#include "Rank4Voigt.cpp"
#include "IsotropicStiffness.cpp"
#include "LinearThermoelasticMaterial.cpp"
#include "Thermomechanics.hpp"
static void run(){ Ell<Plato::Thermomechanics,2> q({1,2},true,SIMP,3); for(int i=0;i<2;i++){ auto& t=at(q.p,i?"Material Models/mB/Thermoelastic":"Material Models/mA/Thermoelastic"); t.set("Thermal Expansivity",0.5*(i+1)); t.set("Thermal Conductivity",2.0); t.set("Reference Temperature",1.0); t.sublist("Elastic Stiffness").set("Poissons Ratio",nu[i]).set("Youngs Modulus",Em[i]); }
  q.go(); bool g; auto J=dense(q.f->gradient_u_T(q.u,q.z),12,12,g); expect("form",g); for(int j=0;j<12;j++){ double h=1e-5,x=q.u(j); q.u(j)=x+h; auto a=q.f->value(q.u,q.z); q.u(j)=x-h; auto b=q.f->value(q.u,q.z); q.u(j)=x; for(int i=0;i<12;i++) near("dr_du_T",J[j][i],(a(i)-b(i))/(2*h),1e-6); } }''',mesh=True)
seed('S23_gradient_ordinal','C20',[('src/Assembly.hpp','''                Plato::OrdinalType tEntryOrdinal = aEntryOrdinal(tCellOrdinal, tNodeIndex, tDimIndex);
                Kokkos::atomic_add(&aOutput(tEntryOrdinal), aGradient(aCellOrdinal).dx(tNodeIndex * NumDofsPerNode + tDimIndex));
            }
        }
    }, "Assemble - Vector Gradient Calculation");
}
// function assemble_vector_gradient_fad
''','''                Plato::OrdinalType tEntryOrdinal = aEntryOrdinal(tCellOrdinal, tNodeIndex, tDimIndex);
                Kokkos::atomic_add(&aOutput(tEntryOrdinal), aGradient(tCellOrdinal % tNumCells).dx(tNodeIndex * NumDofsPerNode + tDimIndex));
            }
        }
    }, "Assemble - Vector Gradient Calculation");
}
// function assemble_vector_gradient_fad
''')],
 'an element block that lists its cells in an order other than ascending','the gradient of one cell is added at the unknowns of another',
 '''#include "sxmesh.hpp"
#include "SimplexMechanics.hpp"
#include "SimplexFadTypes.hpp"
#include "ImplicitFunctors.hpp"
#include "WorksetBase.hpp"
struct W : Plato::WorksetBase<Plato::SimplexMechanics<2>> { typedef Plato::WorksetBase<Plato::SimplexMechanics<2>> B; using typename B::StateFad; using B::mGlobalStateEntryOrdinal; W(Omega_h::Mesh& m):Plato::WorksetBase<Plato::SimplexMechanics<2>>(m){} };
typedef W::StateFad F;
static void run(){ Msh<2> m; Teuchos::ParameterList p; at(p,"Spatial Model/Domains/Q").set("Element Block","rev").set("Material Model","mA"); Plato::SpatialModel sm(m.mesh,m.sets,p); W w(m.mesh); Plato::ScalarVectorT<F> g("g",2); Plato::ScalarVector o("o",8); Vec e(8,0.0); int cell[2]={1,0}; for(int k=0;k<2;k++){ g(k)=F(6,0.0); for(int j=0;j<6;j++){ double v=1+10*k+j; g(k).fastAccessDx(j)=v; e[m.v(cell[k],j/2)*2+j%2]+=v; } } Plato::assemble_vector_gradient_fad<3,2>(sm.Domains[0],w.mGlobalStateEntryOrdinal,g,o); for(int i=0;i<8;i++) near("gradient",o(i),e[i]); }''',mesh=True)
seed('S24_orthotropic_coupling','C24',[('src/OrthotropicLinearElasticMaterial.cpp','(tPoissonRatioZY + (tPoissonRatioZX * tPoissonRatioXY)) / tDenominator2','(tPoissonRatioZY + (tPoissonRatioXZ * tPoissonRatioXY)) / tDenominator2')],
 'a three-dimensional orthotropic material whose moduli in x and z differ','the coupling between the y and z normal stresses is wrong: the stiffness is no longer the inverse of the compliance',
 '''#include "sxmat.hpp"
static void run(){ Teuchos::ParameterList p; double E[3]={1,2,3},v[3]={0.1,0.2,0.15}; p.set("Youngs Modulus X",E[0]).set("Youngs Modulus Y",E[1]).set("Youngs Modulus Z",E[2]).set("Shear Modulus XY",1.0).set("Shear Modulus XZ",1.5).set("Shear Modulus YZ",2.0).set("Poissons Ratio XY",v[0]).set("Poissons Ratio XZ",v[1]).set("Poissons Ratio YZ",v[2]); Plato::OrthotropicLinearElasticMaterial<3> m(p); auto C=m.getStiffnessMatrix(); double S[3][3]={{1/E[0],-v[0]/E[0],-v[1]/E[0]},{-v[0]/E[0],1/E[1],-v[2]/E[1]},{-v[1]/E[0],-v[2]/E[1],1/E[2]}}; for(int i=0;i<3;i++) for(int j=0;j<3;j++){ double s=0; for(int k=0;k<3;k++) s+=C(i,k)*S[k][j]; near("C*S",s,i==j); } }''',mesh=True)
seed('S25_side_area_sign','C21',[('src/ImplicitFunctors.hpp','''        ScalarType Cross1 = ab2 * bc0 - ab0 * bc2;
        ScalarType Cross2 = ab0 * bc1 - ab1 * bc0;

        sideArea =''','''        ScalarType Cross1 = ab2 * bc0 + ab0 * bc2;
        ScalarType Cross2 = ab0 * bc1 - ab1 * bc0;

        sideArea =''')],
 'a side of a tetrahedron whose edges both have x and z components','the area of tilted sides is wrong (sides parallel to a coordinate plane are right)',
 '''#include "sxmesh.hpp"
#include "ImplicitFunctors.hpp"
static void run(){ double X[4][3]={{0,0,0},{1,0.2,0.5},{0.3,1,0.7},{0.1,0.2,1.3}}; Plato::ScalarArray3D c("c",1,4,3); for(int n=0;n<4;n++) for(int d=0;d<3;d++) c(0,n,d)=X[n][d]; int f[4][3]={{0,1,2},{0,1,3},{1,2,3},{0,2,3}}; for(auto& s:f){ double a=0; Plato::ComputeSurfaceArea<3>()(0,s,c,a); double u[3],v[3]; for(int d=0;d<3;d++){ u[d]=X[s[1]][d]-X[s[0]][d]; v[d]=X[s[2]][d]-X[s[0]][d]; } double n0=u[1]*v[2]-u[2]*v[1],n1=u[2]*v[0]-u[0]*v[2],n2=u[0]*v[1]-u[1]*v[0]; near("area",a,std::sqrt(n0*n0+n1*n1+n2*n2)/2); } }''',mesh=True)
