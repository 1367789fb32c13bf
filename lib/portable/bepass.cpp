/* Makes a module behave as on a machine of the opposite byte order: every
   integer which it keeps in memory is byte-swapped there. Integers in
   registers, arguments and return values stay as they are, and so do pointers.
   What the C library fills in or reads must be converted at the border. */
#include "llvm/IR/Constants.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
using namespace llvm;
namespace {
bool isForeign(Value *p)
{
  p = p->stripPointerCasts();
  if(auto *c = dyn_cast<CallBase>(p))
    if(auto *f = c->getCalledFunction())
      return f->getName() == "__errno_location";
  if(auto *g = dyn_cast<GlobalVariable>(p)) return g->isDeclaration() && !g->getName().starts_with("_nb");
  return false;
}
bool swappable(Type *t)
{
  auto *i = dyn_cast<IntegerType>(t);
  return i && (i->getBitWidth() == 16 || i->getBitWidth() == 32 || i->getBitWidth() == 64);
}
bool anySwappable(Type *t)
{
  if(swappable(t)) return true;
  if(auto *s = dyn_cast<StructType>(t)) { for(Type *e : s->elements()) if(anySwappable(e)) return true; }
  if(auto *a = dyn_cast<ArrayType>(t)) return anySwappable(a->getElementType());
  return false;
}
Value *swap(IRBuilder<> &b, Value *v)
{
  Type *t = v->getType();
  if(swappable(t)) return b.CreateUnaryIntrinsic(Intrinsic::bswap, v);
  if(!anySwappable(t)) return v;
  Value *r = v;
  unsigned n = isa<StructType>(t) ? cast<StructType>(t)->getNumElements() : cast<ArrayType>(t)->getNumElements();
  for(unsigned i = 0; i < n; i++) r = b.CreateInsertValue(r, swap(b, b.CreateExtractValue(v, i)), i);
  return r;
}
Constant *swapConst(Constant *c)
{
  Type *t = c->getType();
  if(auto *i = dyn_cast<ConstantInt>(c)) return swappable(t) ? ConstantInt::get(t, i->getValue().byteSwap()) : c;
  if(!anySwappable(t) || isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return c;
  if(auto *s = dyn_cast<StructType>(t))
  {
    SmallVector<Constant *, 8> e;
    for(unsigned i = 0; i < s->getNumElements(); i++) e.push_back(swapConst(c->getAggregateElement(i)));
    return ConstantStruct::get(s, e);
  }
  if(auto *a = dyn_cast<ArrayType>(t))
  {
    SmallVector<Constant *, 8> e;
    for(unsigned i = 0; i < a->getNumElements(); i++) e.push_back(swapConst(c->getAggregateElement(i)));
    return ConstantArray::get(a, e);
  }
  report_fatal_error("bepass: unexpected constant");
}
struct BePass : PassInfoMixin<BePass>
{
  PreservedAnalyses run(Module &m, ModuleAnalysisManager &)
  {
    for(GlobalVariable &g : m.globals())
      if(g.hasInitializer() && !g.getName().starts_with("llvm.")) g.setInitializer(swapConst(g.getInitializer()));
    for(Function &f : m)
      for(BasicBlock &bb : f)
        for(Instruction &i : make_early_inc_range(bb))
        {
          if(auto *l = dyn_cast<LoadInst>(&i))
          {
            if(!anySwappable(l->getType()) || isForeign(l->getPointerOperand())) continue;
            IRBuilder<> b(l);
            auto *copy = cast<LoadInst>(l->clone());
            b.Insert(copy);
            l->replaceAllUsesWith(swap(b, copy));
            l->eraseFromParent();
          }
          else if(auto *s = dyn_cast<StoreInst>(&i))
          {
            if(!anySwappable(s->getValueOperand()->getType()) || isForeign(s->getPointerOperand())) continue;
            IRBuilder<> b(s);
            s->setOperand(0, swap(b, s->getValueOperand()));
          }
          else if(isa<AtomicRMWInst>(&i) || isa<AtomicCmpXchgInst>(&i) || isa<VAArgInst>(&i)) report_fatal_error("bepass: unsupported instruction");
        }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
}
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo()
{
  return {LLVM_PLUGIN_API_VERSION, "bepass", "1", [](PassBuilder &pb) {
            pb.registerPipelineStartEPCallback([](ModulePassManager &mpm, OptimizationLevel) { mpm.addPass(BePass()); });
          }};
}
