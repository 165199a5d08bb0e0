// Prints the functions of an LLVM module as JSON lines: irdump FILE.ll|bc
#include "llvm/ADT/StringExtras.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"

using namespace llvm;
static std::map<const Value*, int> ids;
static std::map<const BasicBlock*, int> bids;
static const DataLayout* DL;

static std::string tyname(Type* t) {
  std::string s;
  raw_string_ostream os(s);
  t->print(os, false, true);
  return os.str();
}

static json::Value operand(const Value* v);

static json::Value gep(const GEPOperator* g) {
  unsigned w = DL->getIndexSizeInBits(g->getPointerAddressSpace());
  MapVector<Value*, APInt> var;
  APInt off(w, 0);
  json::Object o;
  o["k"] = "gep";
  o["base"] = operand(g->getPointerOperand());
  if (!g->collectOffset(*DL, w, var, off)) {
    o["bad"] = true;
    return o;
  }
  o["off"] = (int64_t)off.getSExtValue();
  json::Array a;
  for (auto& p : var)
    a.push_back(json::Array{operand(p.first), (int64_t)p.second.getSExtValue()});
  o["var"] = std::move(a);
  return o;
}

static json::Value operand(const Value* v) {
  json::Object o;
  if (auto* a = dyn_cast<Argument>(v)) {
    o["k"] = "arg";
    o["i"] = (int64_t)a->getArgNo();
  } else if (auto* b = dyn_cast<BasicBlock>(v)) {
    o["k"] = "blk";
    o["i"] = bids[b];
  } else if (auto* i = dyn_cast<Instruction>(v)) {
    o["k"] = "v";
    o["i"] = ids[i];
  } else if (auto* c = dyn_cast<ConstantInt>(v)) {
    o["k"] = "int";
    o["v"] = toString(c->getValue(), 10, true);
    o["w"] = (int64_t)c->getBitWidth();
  } else if (auto* c = dyn_cast<ConstantFP>(v)) {
    o["k"] = "fp";
    SmallString<32> s;
    c->getValueAPF().toString(s);
    o["v"] = std::string(s);
    o["t"] = tyname(c->getType());
  } else if (auto* f = dyn_cast<Function>(v)) {
    o["k"] = "fn";
    o["n"] = f->getName().str();
  } else if (auto* g = dyn_cast<GlobalVariable>(v)) {
    o["k"] = "glob";
    o["n"] = g->getName().str();
  } else if (isa<ConstantPointerNull>(v)) {
    o["k"] = "null";
  } else if (isa<UndefValue>(v)) {
    o["k"] = "undef";
  } else if (auto* g = dyn_cast<GEPOperator>(v)) {
    return gep(g);
  } else {
    o["k"] = "other";
    std::string s;
    raw_string_ostream os(s);
    v->printAsOperand(os, true);
    o["s"] = os.str();
  }
  return o;
}

int main(int argc, char** argv) {
  LLVMContext C;
  SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, C);
  if (!M) {
    err.print(argv[0], errs());
    return 2;
  }
  DL = &M->getDataLayout();
  for (Function& F : *M) {
    json::Object o;
    o["name"] = F.getName().str();
    o["decl"] = F.isDeclaration();
    o["ret"] = tyname(F.getReturnType());
    json::Array ps;
    for (auto& a : F.args())
      ps.push_back(json::Object{{"t", tyname(a.getType())}, {"n", a.getName().str()}});
    o["params"] = std::move(ps);
    o["noret"] = F.doesNotReturn();
    o["readnone"] = F.doesNotAccessMemory();
    if (auto* sp = F.getSubprogram()) {
      o["file"] = (sp->getFilename()).str();
      o["line"] = (int64_t)sp->getLine();
      o["pretty"] = sp->getName().str();
    }
    ids.clear();
    bids.clear();
    int n = 0, b = 0;
    for (auto& B : F) {
      bids[&B] = b++;
      for (auto& I : B)
        ids[&I] = n++;
    }
    json::Array blocks;
    for (auto& B : F) {
      json::Array is;
      for (auto& I : B) {
        if (isa<DbgInfoIntrinsic>(I))
          continue;
        json::Object x;
        x["i"] = ids[&I];
        x["op"] = I.getOpcodeName();
        x["t"] = tyname(I.getType());
        if (auto& d = I.getDebugLoc())
          x["l"] = (int64_t)d.getLine();
        json::Array ops;
        if (auto* c = dyn_cast<CmpInst>(&I))
          x["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
        if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
          x["gep"] = gep(cast<GEPOperator>(g));
        } else if (auto* p = dyn_cast<PHINode>(&I)) {
          for (unsigned k = 0; k < p->getNumIncomingValues(); ++k)
            ops.push_back(json::Array{bids[p->getIncomingBlock(k)], operand(p->getIncomingValue(k))});
        } else if (auto* s = dyn_cast<SwitchInst>(&I)) {
          ops.push_back(operand(s->getCondition()));
          x["default"] = bids[s->getDefaultDest()];
          json::Array cs;
          for (auto& c : s->cases())
            cs.push_back(json::Array{toString(c.getCaseValue()->getValue(), 10, true), bids[c.getCaseSuccessor()]});
          x["cases"] = std::move(cs);
        } else if (auto* c = dyn_cast<CallBase>(&I)) {
          x["callee"] = operand(c->getCalledOperand());
          for (auto& a : c->args())
            ops.push_back(operand(a));
          if (auto* iv = dyn_cast<InvokeInst>(&I))
            x["normal"] = bids[iv->getNormalDest()];
        } else {
          for (auto& u : I.operands())
            ops.push_back(operand(u));
        }
        if (auto* a = dyn_cast<AllocaInst>(&I))
          x["sz"] = (int64_t)DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue();
        if (auto* l = dyn_cast<LoadInst>(&I))
          x["sz"] = (int64_t)DL->getTypeStoreSize(l->getType()).getFixedValue();
        if (auto* s = dyn_cast<StoreInst>(&I)) {
          x["sz"] = (int64_t)DL->getTypeStoreSize(s->getValueOperand()->getType()).getFixedValue();
          x["vt"] = tyname(s->getValueOperand()->getType());
        }
        if (isa<CastInst>(I))
          x["from"] = tyname(I.getOperand(0)->getType());
        x["ops"] = std::move(ops);
        is.push_back(std::move(x));
      }
      blocks.push_back(std::move(is));
    }
    o["blocks"] = std::move(blocks);
    outs() << json::Value(std::move(o)) << "\n";
  }
}
