// LLVM pass: instruments every scalar integer/floating operation of the translation unit
// with a shadow expression id, see DESIGN.md ("symx").
#include "llvm/IR/PassManager.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/CFG.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/LowerSwitch.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <map>
#include <set>
#include <cstdlib>
#include "sxops.h"
using namespace llvm;
static const char* kFuncs[] = SX_FUNCS;
namespace {
typedef SmallVector<Value*,4> Sh;
struct SxPass : PassInfoMixin<SxPass> {
  Module* M; LLVMContext* C; const DataLayout* DL;
  Type *I1,*I8,*I32,*I64,*F64,*F32,*Ptr,*Void; Value* Z;
  FunctionCallee fOp2,fOp1,fLoad,fStore,fBr,fConc,fChk,fMemcpy,fMemmove,fMemset,fClear,fCover,fExt,fByval,fRmw,fTop;
  GlobalVariable *gArgs,*gCallee,*gRet,*gRetValid;
  std::map<std::string,Value*> strs;
  std::string repo;
  DenseMap<Value*,Sh> S;

  static bool isRuntime(StringRef n){ return n.startswith("__sx_")||n.startswith("sx_"); }
  unsigned nleaf(Type* T){
    if(auto*V=dyn_cast<FixedVectorType>(T)) return V->getNumElements();
    if(auto*A=dyn_cast<ArrayType>(T)) return A->getNumElements()*nleaf(A->getElementType());
    if(auto*St=dyn_cast<StructType>(T)){unsigned n=0;for(auto*E:St->elements())n+=nleaf(E);return n;}
    if(T->isVoidTy()) return 0;
    return 1;
  }
  void leafTys(Type*T,uint64_t off,SmallVectorImpl<std::pair<Type*,uint64_t>>&o){
    if(auto*V=dyn_cast<FixedVectorType>(T)){uint64_t sz=DL->getTypeStoreSize(V->getElementType());for(unsigned i=0;i<V->getNumElements();i++)o.push_back({V->getElementType(),off+i*sz});return;}
    if(auto*A=dyn_cast<ArrayType>(T)){uint64_t sz=DL->getTypeAllocSize(A->getElementType());for(uint64_t i=0;i<A->getNumElements();i++)leafTys(A->getElementType(),off+i*sz,o);return;}
    if(auto*St=dyn_cast<StructType>(T)){auto*L=DL->getStructLayout(St);for(unsigned i=0;i<St->getNumElements();i++)leafTys(St->getElementType(i),off+L->getElementOffset(i),o);return;}
    o.push_back({T,off});
  }
  int tyCode(Type*T){ // -1: not tracked
    if(T->isDoubleTy())return 1000; if(T->isFloatTy())return 1001;
    if(T->isIntegerTy()&&T->getIntegerBitWidth()<=64)return T->getIntegerBitWidth();
    return -1;
  }
  Value* bits(IRBuilder<>&B,Value*V){
    Type*T=V->getType();
    if(T->isDoubleTy())return B.CreateBitCast(V,I64);
    if(T->isFloatTy())return B.CreateZExt(B.CreateBitCast(V,I32),I64);
    if(T->isIntegerTy()){ if(T->getIntegerBitWidth()<64)return B.CreateZExt(V,I64); if(T->getIntegerBitWidth()==64)return V; return B.CreateTrunc(V,I64);}
    return ConstantInt::get(I64,0);
  }
  Sh zeros(Type*T){Sh s;for(unsigned i=0,n=nleaf(T);i<n;i++)s.push_back(Z);return s;}
  Sh sh(Value*V){auto it=S.find(V);if(it!=S.end())return it->second;return zeros(V->getType());}
  bool allZ(const Sh&s){for(auto*v:s)if(v!=Z)return false;return true;}
  Value* c32(int v){return ConstantInt::get(I32,v);}
  Value* str(const std::string&s){auto&x=strs[s];if(!x){auto*D=ConstantDataArray::getString(*C,s);auto*G=new GlobalVariable(*M,D->getType(),true,GlobalValue::PrivateLinkage,D,"__sx_str");x=G;}return x;}
  Value* elt(IRBuilder<>&B,Value*V,unsigned i){ if(V->getType()->isVectorTy())return B.CreateExtractElement(V,i); return V; }
  Type* scal(Type*T){return T->getScalarType();}
  int binop(unsigned o){switch(o){
    case Instruction::FAdd:return SX_FADD;case Instruction::FSub:return SX_FSUB;case Instruction::FMul:return SX_FMUL;case Instruction::FDiv:return SX_FDIV;case Instruction::FRem:return SX_FREM;
    case Instruction::Add:return SX_ADD;case Instruction::Sub:return SX_SUB;case Instruction::Mul:return SX_MUL;case Instruction::UDiv:return SX_UDIV;case Instruction::SDiv:return SX_SDIV;case Instruction::URem:return SX_UREM;case Instruction::SRem:return SX_SREM;
    case Instruction::Shl:return SX_SHL;case Instruction::LShr:return SX_LSHR;case Instruction::AShr:return SX_ASHR;case Instruction::And:return SX_AND;case Instruction::Or:return SX_OR;case Instruction::Xor:return SX_XOR;}
    return -1;}
  int funcIdx(StringRef n){for(unsigned i=0;i<sizeof(kFuncs)/sizeof(*kFuncs);i++)if(n==kFuncs[i])return i;return -1;}
  int intrinsicFunc(Intrinsic::ID id){switch(id){
    case Intrinsic::sqrt:return funcIdx("sqrt");case Intrinsic::pow:return funcIdx("pow");case Intrinsic::exp:return funcIdx("exp");case Intrinsic::log:return funcIdx("log");case Intrinsic::log10:return funcIdx("log10");
    case Intrinsic::sin:return funcIdx("sin");case Intrinsic::cos:return funcIdx("cos");case Intrinsic::fabs:return funcIdx("fabs");case Intrinsic::floor:return funcIdx("floor");case Intrinsic::ceil:return funcIdx("ceil");case Intrinsic::exp2:return funcIdx("exp2");case Intrinsic::log2:return funcIdx("log2");case Intrinsic::trunc:return funcIdx("trunc");case Intrinsic::round:return funcIdx("round");default:return -1;}}

  // pre-pass: expand min/max/abs style intrinsics (and fmin/fmax) into cmp+select
  void expand(Function&F){
    SmallVector<CallInst*,16> L;
    for(auto&BB:F)for(auto&I:BB)if(auto*CI=dyn_cast<CallInst>(&I))L.push_back(CI);
    for(auto*CI:L){
      IRBuilder<> B(CI); Value*R=nullptr;
      Function*Fn=CI->getCalledFunction(); if(!Fn)continue;
      auto id=Fn->getIntrinsicID();
      StringRef n=Fn->getName();
      if(id==Intrinsic::smax||id==Intrinsic::smin||id==Intrinsic::umax||id==Intrinsic::umin){
        Value*a=CI->getArgOperand(0),*b=CI->getArgOperand(1);
        if(a->getType()->isVectorTy())continue;
        auto p=id==Intrinsic::smax?CmpInst::ICMP_SGT:id==Intrinsic::smin?CmpInst::ICMP_SLT:id==Intrinsic::umax?CmpInst::ICMP_UGT:CmpInst::ICMP_ULT;
        R=B.CreateSelect(B.CreateICmp(p,a,b),a,b);
      } else if(id==Intrinsic::abs){
        Value*a=CI->getArgOperand(0); if(a->getType()->isVectorTy())continue;
        R=B.CreateSelect(B.CreateICmpSLT(a,Constant::getNullValue(a->getType())),B.CreateNeg(a),a);
      } else if(id==Intrinsic::maxnum||id==Intrinsic::minnum||(Fn->isDeclaration()&&(n=="fmax"||n=="fmin"))){
        Value*a=CI->getArgOperand(0),*b=CI->getArgOperand(1); if(a->getType()->isVectorTy())continue;
        bool mx=id==Intrinsic::maxnum||n=="fmax";
        R=B.CreateSelect(mx?B.CreateFCmpOGT(a,b):B.CreateFCmpOLT(a,b),a,b);
      } else if(id==Intrinsic::fmuladd||id==Intrinsic::fma){
        R=B.CreateFAdd(B.CreateFMul(CI->getArgOperand(0),CI->getArgOperand(1)),CI->getArgOperand(2));
      }
      if(R){CI->replaceAllUsesWith(R);CI->eraseFromParent();}
    }
  }

  Value* op2(IRBuilder<>&B,int op,Type*T,Value*sa,Value*sb,Value*a,Value*b,Value*r){
    if(sa==Z&&sb==Z)return Z; int t=tyCode(T); if(t<0)return Z;
    return B.CreateCall(fOp2,{c32(op),c32(t),sa,sb,bits(B,a),bits(B,b),bits(B,r)});
  }
  Value* decide(IRBuilder<>&B,Value*s,Value*c){ if(s==Z)return c; return B.CreateCall(fBr,{s,c}); }

  void doCall(CallBase*CB,std::vector<std::pair<Instruction*,int>>&){
    Function*Fn=CB->getCalledFunction();
    IRBuilder<> B(CB);
    if(isa<InlineAsm>(CB->getCalledOperand()))return;
    if(Fn){
      auto id=Fn->getIntrinsicID();
      if(id!=Intrinsic::not_intrinsic){
        if(auto*MI=dyn_cast<MemTransferInst>(CB)){
          Value*len=B.CreateZExtOrTrunc(conc(B,MI->getLength()),I64);
          bool mv=isa<MemMoveInst>(MI);
          B.CreateCall(mv?fMemmove:fMemcpy,{MI->getRawDest(),MI->getRawSource(),len});
          dead.push_back(MI);return;
        }
        if(auto*MS=dyn_cast<MemSetInst>(CB)){
          Value*len=B.CreateZExtOrTrunc(conc(B,MS->getLength()),I64);
          B.CreateCall(fMemset,{MS->getRawDest(),sh(MS->getValue())[0],len});return;
        }
        if(id==Intrinsic::lifetime_start){
          B.CreateCall(fClear,{CB->getArgOperand(1),CB->getArgOperand(0)});return;
        }
        int fi=intrinsicFunc(id);
        if(fi>=0&&!CB->getType()->isVectorTy()&&tyCode(CB->getType())>=0){mathCall(CB,fi);return;}
        if(id==Intrinsic::expect||id==Intrinsic::launder_invariant_group||id==Intrinsic::strip_invariant_group){S[CB]=sh(CB->getArgOperand(0));return;}
        if(id==Intrinsic::copysign){ // symbolic -> recorded as leak
        }
        if(CB->getType()->isVoidTy()||CB->getMetadata("x"))return;
        if(id==Intrinsic::is_fpclass)return;
        // unknown intrinsic with tracked arguments: record leak
        extLeak(B,CB,Fn->getName());
        return;
      }
      if(Fn->isDeclaration()||Fn->hasAvailableExternallyLinkage()){
        StringRef n=Fn->getName();
        int fi=funcIdx(n);
        if(fi>=0&&tyCode(CB->getType())>=0){mathCall(CB,fi);return;}
        if(!isRuntime(n)) extLeak(B,CB,n);
      }
    }
    // argument protocol
    bool any=false; unsigned k=0; SmallVector<std::pair<unsigned,Value*>,8> st; SmallVector<std::pair<unsigned,Value*>,2> bv;
    for(unsigned i=0;i<CB->arg_size();i++){
      Value*A=CB->getArgOperand(i);
      Sh s=sh(A);
      if(CB->isByValArgument(i)){any=true;bv.push_back({k,A});}
      for(auto*v:s){ if(v!=Z)any=true; st.push_back({k++,v}); }
      if(k>200)break;
    }
    if(any&&k<=200){
      for(auto&p:st)B.CreateStore(p.second,B.CreateConstInBoundsGEP2_32(gArgs->getValueType(),gArgs,0,p.first));
      for(auto&p:bv)B.CreateStore(p.second,B.CreateConstInBoundsGEP2_32(gArgsP->getValueType(),gArgsP,0,p.first));
      B.CreateStore(CB->getCalledOperand(),gCallee);
    } else B.CreateStore(ConstantPointerNull::get(PointerType::get(*C,0)),gCallee);
    CB->setMemoryEffects(MemoryEffects::unknown());
    Type*RT=CB->getType();
    if(RT->isVoidTy()||RT->isPointerTy())return;
    unsigned nl=nleaf(RT); if(nl>64)return;
    B.CreateStore(c32(0),gRetValid);
    if(auto*CI=dyn_cast<CallInst>(CB)){ if(CI->isMustTailCall())return; }
    Instruction*IP;
    if(auto*II=dyn_cast<InvokeInst>(CB)){
      BasicBlock*N=II->getNormalDest();
      if(!N->getSinglePredecessor()){
        // split edge
        BasicBlock*NB=BasicBlock::Create(*C,"sx.inv",CB->getFunction(),N);
        BranchInst::Create(N,NB);
        for(auto&PN:N->phis()){int ix=PN.getBasicBlockIndex(II->getParent());if(ix>=0)PN.setIncomingBlock(ix,NB);}
        II->setNormalDest(NB);
        N=NB;
      }
      IP=&*N->getFirstInsertionPt();
    } else IP=CB->getNextNode();
    IRBuilder<> A(IP);
    SmallVector<std::pair<Type*,uint64_t>,4> lt; leafTys(RT,0,lt);
    Sh out; std::vector<unsigned> path;
    for(unsigned i=0;i<nl;i++){
      int t=tyCode(lt[i].first);
      if(t<0){out.push_back(Z);continue;}
      Value*leafv=leafValue(A,CB,RT,i);
      out.push_back(A.CreateCall(fChk,{c32(i),c32(t),bits(A,leafv)}));
    }
    S[CB]=out;
  }
  // extract leaf i of an aggregate/vector value
  Value* leafValue(IRBuilder<>&B,Value*V,Type*T,unsigned i){
    if(T->isVectorTy())return B.CreateExtractElement(V,i);
    if(auto*St=dyn_cast<StructType>(T)){for(unsigned e=0;e<St->getNumElements();e++){unsigned n=nleaf(St->getElementType(e));if(i<n)return leafValue(B,B.CreateExtractValue(V,e),St->getElementType(e),i);i-=n;}}
    if(auto*A=dyn_cast<ArrayType>(T)){unsigned n=nleaf(A->getElementType());return leafValue(B,B.CreateExtractValue(V,i/n),A->getElementType(),i%n);}
    return V;
  }
  void extLeak(IRBuilder<>&B,CallBase*CB,StringRef n){
    for(unsigned i=0;i<CB->arg_size();i++)for(auto*v:sh(CB->getArgOperand(i)))if(v!=Z)B.CreateCall(fExt,{v,str(n.str())});
  }
  Value* conc(IRBuilder<>&B,Value*V){
    Sh s=sh(V); if(s.size()!=1||s[0]==Z||tyCode(V->getType())<0)return V;
    Value*r=B.CreateCall(fConc,{s[0],c32(tyCode(V->getType())),bits(B,V)});
    return B.CreateTruncOrBitCast(r,V->getType());
  }
  void mathCall(CallBase*CB,int fi){
    Value*a=CB->getArgOperand(0); Value*sa=sh(a)[0]; Value*b=nullptr,*sb=Z;
    if(CB->arg_size()>1){b=CB->getArgOperand(1);sb=sh(b)[0];}
    if(sa==Z&&sb==Z)return;
    Instruction*IP=CB->getNextNode();
    if(auto*II=dyn_cast<InvokeInst>(CB)){ // turn into call
      CallInst*NC=CallInst::Create(CB->getFunctionType(),CB->getCalledOperand(),SmallVector<Value*,2>(CB->args()),"",CB);
      CB->replaceAllUsesWith(NC); BranchInst::Create(II->getNormalDest(),II->getParent());
      II->getUnwindDest()->removePredecessor(II->getParent()); II->eraseFromParent(); CB=NC; IP=NC->getNextNode();
    }
    IRBuilder<> B(IP);
    if(b)S[CB]={op2(B,SX_FUNC+fi,CB->getType(),sa,sb,a,b,CB)};
    else S[CB]={B.CreateCall(fOp1,{c32(SX_FUNC+fi),c32(tyCode(CB->getType())),sa,bits(B,a),bits(B,CB),c32(tyCode(a->getType()))})};
  }
  std::vector<Instruction*> dead; GlobalVariable*gArgsP;

  void cover(Function&F){
    for(auto&BB:F){
      std::set<std::string> names;
      for(auto&I:BB){
        if(isa<DbgInfoIntrinsic>(I))continue;
        DILocation*L=I.getDebugLoc().get();
        while(L){
          auto*SP=L->getScope()->getSubprogram();
          if(SP){ std::string f=(SP->getFilename().startswith("/")?SP->getFilename().str():(SP->getDirectory()+"/"+SP->getFilename()).str());
            if(f.find(repo)==0){ names.insert(f.substr(repo.size())+":"+SP->getName().str()); } }
          L=L->getInlinedAt();
        }
      }
      if(names.empty())continue;
      IRBuilder<> B(&*BB.getFirstInsertionPt());
      for(auto&n:names)B.CreateCall(fCover,{str(n)});
    }
  }

  void run(Function&F){
    if(F.isDeclaration()||isRuntime(F.getName())||F.hasAvailableExternallyLinkage()||F.hasFnAttribute(Attribute::Naked))return;
    expand(F);
    S.clear();dead.clear();
    F.removeFnAttr(Attribute::Memory);F.removeFnAttr(Attribute::Speculatable);F.removeFnAttr(Attribute::WillReturn);F.removeFnAttr(Attribute::NoSync);F.removeFnAttr(Attribute::NoFree);
    for(auto&A:F.args()){A.removeAttr(Attribute::ReadNone);A.removeAttr(Attribute::ReadOnly);A.removeAttr(Attribute::WriteOnly);A.removeAttr(Attribute::Returned);}
    // original instruction list in RPO
    ReversePostOrderTraversal<Function*> RPOT(&F);
    std::vector<BasicBlock*> order(RPOT.begin(),RPOT.end());
    std::vector<std::vector<Instruction*>> ins;
    for(auto*BB:order){std::vector<Instruction*> v;for(auto&I:*BB)v.push_back(&I);ins.push_back(v);}
    // entry
    {
      BasicBlock&E=F.getEntryBlock(); IRBuilder<> B(&*E.getFirstInsertionPt());
      unsigned n=0;bool need=false;bool bvl=false;
      for(auto&A:F.args()){n+=nleaf(A.getType());if(!A.getType()->isPointerTy())need=true;if(A.hasByValAttr()){need=true;bvl=true;}}
      if(need&&n<=200&&n>0){
        Value*ok=B.CreateICmpEQ(B.CreateLoad(PointerType::get(*C,0),gCallee),&F);
        unsigned k=0;
        for(auto&A:F.args()){
          Sh s; SmallVector<std::pair<Type*,uint64_t>,4> lt; leafTys(A.getType(),0,lt);
          for(unsigned i=0;i<lt.size();i++,k++){
            int t=tyCode(lt[i].first);
            if(t<0){s.push_back(Z);
              if(A.hasByValAttr()&&i==0){
                Value*src=B.CreateLoad(Ptr,B.CreateConstInBoundsGEP2_32(gArgsP->getValueType(),gArgsP,0,k));
                src=B.CreateSelect(ok,src,ConstantPointerNull::get(PointerType::get(*C,0)));
                B.CreateCall(fByval,{&A,src,ConstantInt::get(I64,DL->getTypeAllocSize(A.getParamByValType()))});
              }
              continue;}
            Value*v=B.CreateLoad(I32,B.CreateConstInBoundsGEP2_32(gArgs->getValueType(),gArgs,0,k));
            s.push_back(B.CreateSelect(ok,v,Z));
          }
          S[&A]=s;
        }
        B.CreateStore(ConstantPointerNull::get(PointerType::get(*C,0)),gCallee);
      }
    }
    std::vector<std::pair<PHINode*,Sh>> phis;
    for(size_t b=0;b<order.size();b++)for(auto*I:ins[b])if(auto*P=dyn_cast<PHINode>(I)){
      if(P->getType()->isPointerTy())continue;
      Sh s;for(unsigned i=0,n=nleaf(P->getType());i<n;i++)s.push_back(PHINode::Create(I32,P->getNumIncomingValues(),"sx.phi",P));
      S[P]=s;phis.push_back({P,s});
    }
    std::vector<std::pair<Instruction*,int>> dummy;
    for(size_t bi=0;bi<order.size();bi++)for(auto*I:ins[bi]){
      if(isa<PHINode>(I)||isa<DbgInfoIntrinsic>(I)||isa<LandingPadInst>(I))continue;
      Instruction*N=I->getNextNode();
      if(auto*BO=dyn_cast<BinaryOperator>(I)){
        Sh a=sh(BO->getOperand(0)),c=sh(BO->getOperand(1)); if(allZ(a)&&allZ(c))continue;
        IRBuilder<> B(N);Sh o;
        // integer division by symbolic zero etc. left to concrete run
        for(unsigned i=0;i<a.size();i++)o.push_back(op2(B,binop(BO->getOpcode()),scal(BO->getType()),a[i],c[i],elt(B,BO->getOperand(0),i),elt(B,BO->getOperand(1),i),elt(B,BO,i)));
        S[I]=o;
      } else if(auto*U=dyn_cast<UnaryOperator>(I)){
        Sh a=sh(U->getOperand(0)); if(allZ(a))continue; IRBuilder<> B(N);Sh o;
        for(unsigned i=0;i<a.size();i++)o.push_back(B.CreateCall(fOp1,{c32(SX_FNEG),c32(tyCode(scal(U->getType()))),a[i],bits(B,elt(B,U->getOperand(0),i)),bits(B,elt(B,U,i)),c32(tyCode(scal(U->getType())))}));
        S[I]=o;
      } else if(auto*CI=dyn_cast<CmpInst>(I)){
        Value*A=CI->getOperand(0),*D=CI->getOperand(1);
        if(tyCode(scal(A->getType()))<0)continue;
        Sh a=sh(A),c=sh(D); if(allZ(a)&&allZ(c))continue; IRBuilder<> B(N);Sh o;
        int op=isa<FCmpInst>(CI)?SX_FCMP+CI->getPredicate():SX_ICMP+(CI->getPredicate()-32);
        for(unsigned i=0;i<a.size();i++)o.push_back(B.CreateCall(fOp2,{c32(op),c32(tyCode(scal(A->getType()))),a[i],c[i],bits(B,elt(B,A,i)),bits(B,elt(B,D,i)),bits(B,elt(B,CI,i))}));
        S[I]=o;
      } else if(auto*CA=dyn_cast<CastInst>(I)){
        Value*A=CA->getOperand(0); Sh a=sh(A); if(allZ(a))continue;
        IRBuilder<> B(N);
        int st=tyCode(scal(A->getType())),dt=tyCode(scal(CA->getType()));
        if(st<0||dt<0||nleaf(CA->getType())!=a.size()){ for(auto*v:a)if(v!=Z)B.CreateCall(fExt,{v,str(std::string("cast:")+CA->getOpcodeName())}); continue; }
        int op=-1;
        switch(CA->getOpcode()){case Instruction::Trunc:op=SX_TRUNC;break;case Instruction::ZExt:op=SX_ZEXT;break;case Instruction::SExt:op=SX_SEXT;break;case Instruction::FPToSI:op=SX_FPTOSI;break;case Instruction::FPToUI:op=SX_FPTOUI;break;case Instruction::SIToFP:op=SX_SITOFP;break;case Instruction::UIToFP:op=SX_UITOFP;break;default:break;}
        if(op<0){S[I]=a;continue;} // fpext, fptrunc, bitcast: pass through
        Sh o;for(unsigned i=0;i<a.size();i++)o.push_back(B.CreateCall(fOp1,{c32(op),c32(dt),a[i],bits(B,elt(B,A,i)),bits(B,elt(B,CA,i)),c32(st)}));
        S[I]=o;
      } else if(isa<FreezeInst>(I)){ S[I]=sh(I->getOperand(0));
      } else if(auto*SI=dyn_cast<SelectInst>(I)){
        IRBuilder<> B(SI);
        Sh cs=sh(SI->getCondition());
        if(cs.size()==1){
          Value*c=decide(B,cs[0],SI->getCondition());
          if(c!=SI->getCondition())SI->setCondition(c);
          Sh a=sh(SI->getTrueValue()),d=sh(SI->getFalseValue()),o;
          if(SI->getType()->isPointerTy()||(allZ(a)&&allZ(d)))continue;
          for(unsigned i=0;i<a.size();i++)o.push_back(B.CreateSelect(c,a[i],d[i]));
          S[I]=o;
        } else {
          Sh a=sh(SI->getTrueValue()),d=sh(SI->getFalseValue()),o; IRBuilder<> B2(N);
          for(auto*v:cs)if(v!=Z)B2.CreateCall(fExt,{v,str("vector-select")});
          for(unsigned i=0;i<a.size();i++)o.push_back(B2.CreateSelect(B2.CreateExtractElement(SI->getCondition(),i),a[i],d[i]));
          S[I]=o;
        }
      } else if(auto*BR=dyn_cast<BranchInst>(I)){
        if(BR->isConditional()){IRBuilder<> B(BR);Sh cs=sh(BR->getCondition());Value*c=decide(B,cs[0],BR->getCondition());if(c!=BR->getCondition())BR->setCondition(c);}
      } else if(auto*L=dyn_cast<LoadInst>(I)){
        if(L->getType()->isPointerTy())continue;
        SmallVector<std::pair<Type*,uint64_t>,4> lt;leafTys(L->getType(),0,lt); if(lt.size()>64)continue;
        IRBuilder<> B(N);Sh o;
        for(unsigned i=0;i<lt.size();i++){int t=tyCode(lt[i].first);if(t<0){o.push_back(Z);continue;}
          Value*p=L->getPointerOperand();if(lt[i].second)p=B.CreateConstGEP1_64(I8,p,lt[i].second);
          o.push_back(B.CreateCall(fLoad,{p,c32(t),bits(B,leafValue(B,L,L->getType(),i))}));}
        S[I]=o;
      } else if(auto*St=dyn_cast<StoreInst>(I)){
        Value*V=St->getValueOperand(); SmallVector<std::pair<Type*,uint64_t>,4> lt;leafTys(V->getType(),0,lt); if(lt.size()>64)continue;
        Sh s=sh(V);IRBuilder<> B(N);
        for(unsigned i=0;i<lt.size();i++){
          Value*p=St->getPointerOperand();if(lt[i].second)p=B.CreateConstGEP1_64(I8,p,lt[i].second);
          B.CreateCall(fStore,{p,ConstantInt::get(I32,DL->getTypeStoreSize(lt[i].first)),s[i]});}
      } else if(auto*G=dyn_cast<GetElementPtrInst>(I)){
        if(G->getType()->isVectorTy())continue;
        IRBuilder<> B(G);
        for(unsigned i=1;i<G->getNumOperands();i++){Value*V=G->getOperand(i);if(isa<Constant>(V)||V->getType()->isVectorTy())continue;Value*c=conc(B,V);if(c!=V)G->setOperand(i,c);}
      } else if(auto*X=dyn_cast<AtomicCmpXchgInst>(I)){
        IRBuilder<> B(N);
        Type*T=X->getNewValOperand()->getType(); int t=tyCode(T); if(t<0)continue;
        Value*old=B.CreateExtractValue(X,0),*ok=B.CreateExtractValue(X,1);
        Value*os=B.CreateCall(fRmw,{X->getPointerOperand(),c32(t),bits(B,old),ok,sh(X->getNewValOperand())[0],c32(-1),bits(B,X->getNewValOperand())});
        S[I]={os,Z};
      } else if(auto*R=dyn_cast<AtomicRMWInst>(I)){
        Type*T=R->getValOperand()->getType();int t=tyCode(T);if(t<0)continue;
        int op=-2;switch(R->getOperation()){case AtomicRMWInst::Xchg:op=-1;break;case AtomicRMWInst::Add:op=SX_ADD;break;case AtomicRMWInst::Sub:op=SX_SUB;break;case AtomicRMWInst::FAdd:op=SX_FADD;break;case AtomicRMWInst::FSub:op=SX_FSUB;break;case AtomicRMWInst::Or:op=SX_OR;break;case AtomicRMWInst::And:op=SX_AND;break;default:break;}
        IRBuilder<> B(N);
        Value*os=B.CreateCall(fRmw,{R->getPointerOperand(),c32(t),bits(B,R),ConstantInt::getTrue(*C),sh(R->getValOperand())[0],c32(op),bits(B,R->getValOperand())});
        S[I]={os};
      } else if(auto*EV=dyn_cast<ExtractValueInst>(I)){
        Sh a=sh(EV->getAggregateOperand());Type*T=EV->getAggregateOperand()->getType();unsigned o=0;
        if(a.size()!=nleaf(T))continue;
        for(unsigned ix:EV->indices()){ if(auto*Stt=dyn_cast<StructType>(T)){for(unsigned e=0;e<ix;e++)o+=nleaf(Stt->getElementType(e));T=Stt->getElementType(ix);}else{auto*AT=cast<ArrayType>(T);o+=ix*nleaf(AT->getElementType());T=AT->getElementType();}}
        S[I]=Sh(a.begin()+o,a.begin()+o+nleaf(T));
      } else if(auto*IV=dyn_cast<InsertValueInst>(I)){
        Sh a=sh(IV->getAggregateOperand());Type*T=IV->getType();unsigned o=0;
        for(unsigned ix:IV->indices()){ if(auto*Stt=dyn_cast<StructType>(T)){for(unsigned e=0;e<ix;e++)o+=nleaf(Stt->getElementType(e));T=Stt->getElementType(ix);}else{auto*AT=cast<ArrayType>(T);o+=ix*nleaf(AT->getElementType());T=AT->getElementType();}}
        Sh v=sh(IV->getInsertedValueOperand());for(unsigned i=0;i<v.size();i++)a[o+i]=v[i];
        S[I]=a;
      } else if(auto*EE=dyn_cast<ExtractElementInst>(I)){
        Sh a=sh(EE->getVectorOperand());if(auto*CI=dyn_cast<ConstantInt>(EE->getIndexOperand())){ if(CI->getZExtValue()<a.size())S[I]={a[CI->getZExtValue()]};}
        else if(!allZ(a)){IRBuilder<> B(N);for(auto*v:a)if(v!=Z)B.CreateCall(fExt,{v,str("extractelement")});}
      } else if(auto*IE=dyn_cast<InsertElementInst>(I)){
        Sh a=sh(IE->getOperand(0));Sh v=sh(IE->getOperand(1));if(auto*CI=dyn_cast<ConstantInt>(IE->getOperand(2))){if(CI->getZExtValue()<a.size())a[CI->getZExtValue()]=v[0];S[I]=a;}
        else if(!allZ(a)||!allZ(v)){IRBuilder<> B(N);for(auto*w:a)if(w!=Z)B.CreateCall(fExt,{w,str("insertelement")});}
      } else if(auto*SV=dyn_cast<ShuffleVectorInst>(I)){
        Sh a=sh(SV->getOperand(0)),c=sh(SV->getOperand(1)),o;
        for(int m:SV->getShuffleMask())o.push_back(m<0?Z:(unsigned)m<a.size()?a[m]:c[m-a.size()]);
        S[I]=o;
      } else if(auto*AI=dyn_cast<AllocaInst>(I)){
        IRBuilder<> B(N); if(auto sz=AI->getAllocationSize(*DL))B.CreateCall(fClear,{AI,ConstantInt::get(I64,sz->getFixedValue())});
      } else if(auto*RI=dyn_cast<ReturnInst>(I)){
        if(RI->getReturnValue()&&!RI->getReturnValue()->getType()->isPointerTy()){
          if(auto*P=RI->getPrevNode())if(auto*CI=dyn_cast<CallInst>(P))if(CI->isMustTailCall())continue;
          Sh s=sh(RI->getReturnValue()); if(s.size()>64)continue; IRBuilder<> B(RI);
          if(!allZ(s)){for(unsigned i=0;i<s.size();i++)B.CreateStore(s[i],B.CreateConstInBoundsGEP2_32(gRet->getValueType(),gRet,0,i));B.CreateStore(c32(1),gRetValid);}
          else B.CreateStore(c32(0),gRetValid);
        }
      } else if(auto*CB=dyn_cast<CallBase>(I)) doCall(CB,dummy);
      else if(auto*SW=dyn_cast<SwitchInst>(I)){ IRBuilder<> B(SW);Value*c=conc(B,SW->getCondition());if(c!=SW->getCondition())SW->setCondition(c); }
    }
    for(auto&p:phis){
      for(unsigned k=0;k<p.first->getNumIncomingValues();k++){
        Sh s=sh(p.first->getIncomingValue(k));
        for(unsigned i=0;i<p.second.size();i++)cast<PHINode>(p.second[i])->addIncoming(s[i],p.first->getIncomingBlock(k));
      }
    }
    for(auto*d:dead)d->eraseFromParent();
    cover(F);
  }
  PreservedAnalyses run(Module&Mo,ModuleAnalysisManager&MAM){
    M=&Mo;C=&Mo.getContext();DL=&Mo.getDataLayout();
    const char*r=getenv("SX_REPO");repo=std::string(r?r:"/repo")+"/";
    I1=Type::getInt1Ty(*C);I8=Type::getInt8Ty(*C);I32=Type::getInt32Ty(*C);I64=Type::getInt64Ty(*C);F64=Type::getDoubleTy(*C);F32=Type::getFloatTy(*C);Ptr=PointerType::get(*C,0);Void=Type::getVoidTy(*C);Z=ConstantInt::get(I32,0);
    fOp2=M->getOrInsertFunction("__sx_op2",I32,I32,I32,I32,I32,I64,I64,I64);
    fOp1=M->getOrInsertFunction("__sx_op1",I32,I32,I32,I32,I64,I64,I32);
    fLoad=M->getOrInsertFunction("__sx_load",I32,Ptr,I32,I64);
    fStore=M->getOrInsertFunction("__sx_store",Void,Ptr,I32,I32);
    fBr=M->getOrInsertFunction("__sx_br",I1,I32,I1);
    fConc=M->getOrInsertFunction("__sx_conc",I64,I32,I32,I64);
    fChk=M->getOrInsertFunction("__sx_ret",I32,I32,I32,I64);
    fMemcpy=M->getOrInsertFunction("__sx_memcpy",Void,Ptr,Ptr,I64);
    fMemmove=M->getOrInsertFunction("__sx_memmove",Void,Ptr,Ptr,I64);
    fMemset=M->getOrInsertFunction("__sx_memset",Void,Ptr,I32,I64);
    fClear=M->getOrInsertFunction("__sx_clear",Void,Ptr,I64);
    fCover=M->getOrInsertFunction("__sx_cover",Void,Ptr);
    fExt=M->getOrInsertFunction("__sx_ext",Void,I32,Ptr);
    fByval=M->getOrInsertFunction("__sx_byval",Void,Ptr,Ptr,I64);
    fRmw=M->getOrInsertFunction("__sx_rmw",I32,Ptr,I32,I64,I1,I32,I32,I64);
    auto g=[&](const char*n,Type*T){auto*G=cast<GlobalVariable>(M->getOrInsertGlobal(n,T));return G;};
    gArgs=g("__sx_args",ArrayType::get(I32,256));gArgsP=g("__sx_argsp",ArrayType::get(Ptr,256));gCallee=g("__sx_callee",Ptr);gRet=g("__sx_rets",ArrayType::get(I32,64));gRetValid=g("__sx_retvalid",I32);
    auto&FAM=MAM.getResult<FunctionAnalysisManagerModuleProxy>(Mo).getManager();
    std::vector<Function*> fs;for(auto&F:*M)fs.push_back(&F);
    for(auto*F:fs)if(!F->isDeclaration()){LowerSwitchPass().run(*F,FAM);}
    for(auto*F:fs)run(*F);
    return PreservedAnalyses::none();
  }
  static bool isRequired(){return true;}
};
}
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo(){
  return {LLVM_PLUGIN_API_VERSION,"symx","1",[](PassBuilder&PB){
    PB.registerOptimizerLastEPCallback([](ModulePassManager&MPM,OptimizationLevel){MPM.addPass(SxPass());});}};
}
