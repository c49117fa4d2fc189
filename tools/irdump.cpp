// irdump: resolved-program exporter.  Reads LLVM IR (one module per source
// file of the repository, compiled from the current working tree) and writes a
// JSON rendering of every function body (instructions, operands, CFG, debug
// positions), the record layouts and the constant globals.
#include <llvm/IR/Module.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/ADT/MapVector.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
using namespace llvm;
using json::Array;
using json::Object;
using JV = json::Value;

static std::string tystr(Type *T) {
  std::string s;
  raw_string_ostream os(s);
  T->print(os, false, true);
  return s;
}

struct Dumper {
  Module &M;
  const DataLayout &DL;
  std::map<const llvm::Value *, int> ids;
  std::map<const BasicBlock *, int> bids;
  Dumper(Module &M) : M(M), DL(M.getDataLayout()) {}

  JV constant(const Constant *C) {
    if (auto *CI = dyn_cast<ConstantInt>(C)) {
      Object o;
      if (CI->getBitWidth() <= 64)
        o["c"] = CI->getSExtValue();
      else
        o["u"] = 1;
      o["w"] = (int)CI->getBitWidth();
      return o;
    }
    if (auto *CF = dyn_cast<ConstantFP>(C))
      return Object{{"f", CF->getValueAPF().convertToDouble()}};
    if (isa<ConstantPointerNull>(C))
      return Object{{"n", 1}};
    if (isa<UndefValue>(C))
      return Object{{"u", 1}};
    if (auto *G = dyn_cast<GlobalValue>(C))
      return Object{{"g", G->getName().str()}, {"off", 0}};
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
      if (auto *GEP = dyn_cast<GEPOperator>(CE)) {
        APInt off(64, 0);
        if (GEP->accumulateConstantOffset(DL, off))
          if (auto *G = dyn_cast<GlobalValue>(GEP->getPointerOperand()))
            return Object{{"g", G->getName().str()}, {"off", off.getSExtValue()}};
      }
      return Object{{"u", 1}};
    }
    if (isa<ConstantAggregateZero>(C))
      return Object{{"z", 1}};
    return Object{{"u", 1}};
  }

  JV operand(const llvm::Value *V) {
    if (auto *C = dyn_cast<Constant>(V))
      return constant(C);
    if (auto *A = dyn_cast<Argument>(V))
      return Object{{"a", (int)A->getArgNo()}};
    if (auto *BB = dyn_cast<BasicBlock>(V))
      return Object{{"b", bids[BB]}};
    auto it = ids.find(V);
    if (it != ids.end())
      return Object{{"i", it->second}};
    return Object{{"u", 1}};
  }

  // flatten a constant initializer into (offset, value) cells
  void flatten(const Constant *C, uint64_t off, Array &out) {
    Type *T = C->getType();
    if (isa<ConstantAggregateZero>(C)) {
      out.push_back(Object{{"o", (int64_t)off}, {"zero", (int64_t)DL.getTypeAllocSize(T)}});
      return;
    }
    if (auto *CDS = dyn_cast<ConstantDataSequential>(C)) {
      if (CDS->isString(8)) {
        std::string hex;
        static const char *H = "0123456789abcdef";
        for (unsigned char ch : CDS->getAsString()) {
          hex += H[ch >> 4];
          hex += H[ch & 15];
        }
        out.push_back(Object{{"o", (int64_t)off}, {"str", hex}});
        return;
      }
      uint64_t es = CDS->getElementByteSize();
      for (unsigned i = 0; i < CDS->getNumElements(); i++)
        out.push_back(Object{{"o", (int64_t)(off + i * es)}, {"s", (int64_t)es}, {"v", constant(CDS->getElementAsConstant(i))}});
      return;
    }
    if (auto *CA = dyn_cast<ConstantArray>(C)) {
      uint64_t es = DL.getTypeAllocSize(CA->getType()->getElementType());
      for (unsigned i = 0; i < CA->getNumOperands(); i++)
        flatten(CA->getOperand(i), off + i * es, out);
      return;
    }
    if (auto *CS = dyn_cast<ConstantStruct>(C)) {
      const StructLayout *SL = DL.getStructLayout(CS->getType());
      for (unsigned i = 0; i < CS->getNumOperands(); i++)
        flatten(CS->getOperand(i), off + SL->getElementOffset(i), out);
      return;
    }
    out.push_back(Object{{"o", (int64_t)off}, {"s", (int64_t)DL.getTypeAllocSize(T)}, {"v", constant(C)}});
  }

  Object fn(Function &F) {
    Object o;
    o["name"] = F.getName().str();
    o["decl"] = F.isDeclaration();
    o["internal"] = F.hasLocalLinkage();
    o["noreturn"] = F.doesNotReturn();
    o["ret"] = tystr(F.getReturnType());
    if (auto *SP = F.getSubprogram()) {
      o["line"] = (int)SP->getLine();
      o["file"] = SP->getFilename().str();
      o["oname"] = SP->getName().str();
    }
    Array args;
    for (auto &A : F.args())
      args.push_back(Object{{"name", A.getName().str()},
                            {"ty", tystr(A.getType())},
                            {"byval", A.hasByValAttr()},
                            {"sret", A.hasStructRetAttr()},
                            {"bvsize", A.hasByValAttr() ? (int64_t)DL.getTypeAllocSize(A.getParamByValType()) : 0}});
    o["args"] = std::move(args);
    Array dts;
    if (auto *SP = F.getSubprogram())
      if (SP->getType())
        for (auto *T : SP->getType()->getTypeArray())
          dts.push_back(diname(T));
    o["dts"] = std::move(dts);
    if (F.isDeclaration())
      return o;
    ids.clear();
    bids.clear();
    int n = 0, b = 0;
    for (auto &BB : F) {
      bids[&BB] = b++;
      for (auto &I : BB)
        ids[&I] = n++;
    }
    Array blocks;
    Object vars;
    for (auto &BB : F) {
      Array ins;
      for (auto &I : BB) {
        if (auto *DV = dyn_cast<DbgVariableIntrinsic>(&I)) {
          if (DV->getNumVariableLocationOps() == 1) {
            auto *V = DV->getVariableLocationOp(0);
            if (V) {
              auto it = ids.find(V);
              std::string key;
              if (it != ids.end())
                key = "i" + std::to_string(it->second);
              else if (auto *A = dyn_cast<Argument>(V))
                key = "a" + std::to_string(A->getArgNo());
              if (!key.empty() && !vars.get(key))
                vars[key] = DV->getVariable()->getName().str();
            }
          }
          continue;
        }
        Object x;
        x["id"] = ids[&I];
        x["op"] = std::string(I.getOpcodeName());
        x["ty"] = tystr(I.getType());
        if (auto &D = I.getDebugLoc()) {
          x["line"] = (int)D.getLine();
          x["col"] = (int)D.getCol();
        }
        Array ops;
        if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          ops.push_back(operand(G->getPointerOperand()));
          MapVector<llvm::Value *, APInt> var;
          APInt off(64, 0);
          if (G->collectOffset(DL, 64, var, off)) {
            x["off"] = off.getSExtValue();
            Array vs;
            for (auto &p : var)
              vs.push_back(Object{{"v", operand(p.first)}, {"s", p.second.getSExtValue()}});
            x["var"] = std::move(vs);
          }
          x["st"] = tystr(G->getSourceElementType());
          Array path;
          for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
            if (auto *ST = gi.getStructTypeOrNull()) {
              auto *ci = cast<ConstantInt>(gi.getOperand());
              path.push_back(Object{{"st", ST->hasName() ? ST->getName().str() : std::string("")},
                                    {"f", (int64_t)ci->getZExtValue()},
                                    {"o", (int64_t)DL.getStructLayout(ST)->getElementOffset(ci->getZExtValue())}});
            }
          }
          x["path"] = std::move(path);
          x["rt"] = tystr(G->getResultElementType());
          x["rts"] = G->getResultElementType()->isSized() ? (int64_t)DL.getTypeAllocSize(G->getResultElementType()) : -1;
        } else if (auto *P = dyn_cast<PHINode>(&I)) {
          for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
            ops.push_back(Object{{"v", operand(P->getIncomingValue(i))}, {"b", bids[P->getIncomingBlock(i)]}});
        } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
          ops.push_back(operand(S->getCondition()));
          x["def"] = bids[S->getDefaultDest()];
          Array cs;
          for (auto &c : S->cases())
            cs.push_back(Object{{"c", c.getCaseValue()->getSExtValue()}, {"b", bids[c.getCaseSuccessor()]}});
          x["cases"] = std::move(cs);
        } else if (auto *C = dyn_cast<CallBase>(&I)) {
          if (C->isInlineAsm())
            x["callee"] = Object{{"asm", 1}};
          else
            x["callee"] = operand(C->getCalledOperand());
          for (auto &a : C->args())
            ops.push_back(operand(a.get()));
          x["noreturn"] = C->doesNotReturn();
        } else {
          for (auto &U : I.operands())
            ops.push_back(operand(U.get()));
          if (auto *CI = dyn_cast<CmpInst>(&I))
            x["pred"] = CmpInst::getPredicateName(CI->getPredicate()).str();
          if (auto *A = dyn_cast<AllocaInst>(&I)) {
            x["size"] = (int64_t)DL.getTypeAllocSize(A->getAllocatedType());
            x["at"] = tystr(A->getAllocatedType());
            x["name"] = A->getName().str();
          }
          if (isa<LoadInst>(&I))
            x["size"] = (int64_t)DL.getTypeStoreSize(I.getType());
          if (auto *S = dyn_cast<StoreInst>(&I)) {
            x["size"] = (int64_t)DL.getTypeStoreSize(S->getValueOperand()->getType());
            x["vt"] = tystr(S->getValueOperand()->getType());
          }
          if (isa<CastInst>(&I))
            x["from"] = tystr(I.getOperand(0)->getType());
          if (auto *E = dyn_cast<ExtractValueInst>(&I)) {
            Array ix;
            for (unsigned k : E->indices())
              ix.push_back((int)k);
            x["ix"] = std::move(ix);
          }
          if (auto *E = dyn_cast<InsertValueInst>(&I)) {
            Array ix;
            for (unsigned k : E->indices())
              ix.push_back((int)k);
            x["ix"] = std::move(ix);
          }
          if (auto *Br = dyn_cast<BranchInst>(&I)) {
            Array su;
            for (unsigned k = 0; k < Br->getNumSuccessors(); k++)
              su.push_back(bids[Br->getSuccessor(k)]);
            x["succ"] = std::move(su);
          }
        }
        x["ops"] = std::move(ops);
        ins.push_back(std::move(x));
      }
      blocks.push_back(Object{{"name", BB.getName().str()}, {"ins", std::move(ins)}});
    }
    o["blocks"] = std::move(blocks);
    o["vars"] = std::move(vars);
    return o;
  }

  std::set<const DIType *> seen;
  Object records;
  Object enums;
  void ditype(const DIType *T) {
    if (!T || !seen.insert(T).second)
      return;
    if (auto *D = dyn_cast<DIDerivedType>(T)) {
      ditype(D->getBaseType());
      return;
    }
    if (auto *S = dyn_cast<DISubroutineType>(T)) {
      for (auto *e : S->getTypeArray())
        ditype(e);
      return;
    }
    if (auto *C = dyn_cast<DICompositeType>(T)) {
      ditype(C->getBaseType());
      if (C->getTag() == dwarf::DW_TAG_enumeration_type) {
        Array es;
        for (auto *e : C->getElements())
          if (auto *en = dyn_cast<DIEnumerator>(e))
            es.push_back(Object{{"n", en->getName().str()}, {"v", en->getValue().getSExtValue()}});
        if (!C->getName().empty())
          enums[C->getName()] = std::move(es);
        else {
          std::string k = "anon" + std::to_string(enums.size());
          enums[k] = std::move(es);
        }
        return;
      }
      if (C->getTag() != dwarf::DW_TAG_structure_type && C->getTag() != dwarf::DW_TAG_union_type)
        return;
      Array fs;
      fields(C, 0, "", fs);
      for (auto *e : C->getElements())
        if (auto *m = dyn_cast<DIType>(e))
          ditype(m);
      if (!C->getName().empty() && fs.size())
        records[C->getName()] = Object{{"size", (int64_t)(C->getSizeInBits() / 8)}, {"fields", std::move(fs)}};
    }
  }
  static const DIType *strip(const DIType *T) {
    while (auto *D = dyn_cast_or_null<DIDerivedType>(T)) {
      if (D->getTag() == dwarf::DW_TAG_typedef || D->getTag() == dwarf::DW_TAG_const_type ||
          D->getTag() == dwarf::DW_TAG_volatile_type)
        T = D->getBaseType();
      else
        break;
    }
    return T;
  }
  static std::string diname(const DIType *T) {
    T = strip(T);
    if (!T)
      return "void";
    if (auto *D = dyn_cast<DIDerivedType>(T))
      if (D->getTag() == dwarf::DW_TAG_pointer_type)
        return diname(D->getBaseType()) + "*";
    if (auto *C = dyn_cast<DICompositeType>(T)) {
      if (C->getTag() == dwarf::DW_TAG_array_type)
        return diname(C->getBaseType()) + "[]";
      if (C->getTag() == dwarf::DW_TAG_enumeration_type)
        return "enum " + C->getName().str();
      return "struct " + C->getName().str();
    }
    return T->getName().str();
  }
  // nested anonymous and embedded records are flattened with dotted names
  void fields(const DICompositeType *C, uint64_t base, std::string pre, Array &out) {
    for (auto *e : C->getElements()) {
      auto *m = dyn_cast<DIDerivedType>(e);
      if (!m || m->getTag() != dwarf::DW_TAG_member)
        continue;
      uint64_t off = base + m->getOffsetInBits() / 8;
      std::string nm = pre + m->getName().str();
      auto *bt = strip(m->getBaseType());
      auto *ct = dyn_cast_or_null<DICompositeType>(bt);
      bool agg = ct && (ct->getTag() == dwarf::DW_TAG_structure_type || ct->getTag() == dwarf::DW_TAG_union_type);
      if (agg && m->getName().empty()) {
        fields(ct, off, pre, out);
        continue;
      }
      out.push_back(Object{{"n", nm}, {"o", (int64_t)off}, {"s", (int64_t)(m->getSizeInBits() / 8)}, {"t", diname(bt)}});
      if (agg)
        fields(ct, off, nm + ".", out);
    }
  }

  Object run() {
    Object o;
    o["module"] = M.getName().str();
    o["source"] = M.getSourceFileName();
    Object st;
    for (auto *S : M.getIdentifiedStructTypes()) {
      if (!S->isSized())
        continue;
      Array el;
      auto *SL = DL.getStructLayout(S);
      for (unsigned i = 0; i < S->getNumElements(); i++)
        el.push_back(Object{{"o", (int64_t)SL->getElementOffset(i)}, {"t", tystr(S->getElementType(i))}});
      st[S->getName()] = Object{{"size", (int64_t)SL->getSizeInBytes()}, {"el", std::move(el)}};
    }
    o["structs"] = std::move(st);
    Object gl;
    for (auto &G : M.globals()) {
      Object g;
      g["const"] = G.isConstant();
      g["internal"] = G.hasLocalLinkage();
      g["size"] = (int64_t)DL.getTypeAllocSize(G.getValueType());
      if (G.hasInitializer()) {
        Array cells;
        flatten(G.getInitializer(), 0, cells);
        g["cells"] = std::move(cells);
      }
      gl[G.getName()] = std::move(g);
    }
    o["globals"] = std::move(gl);
    DebugInfoFinder DF;
    DF.processModule(M);
    for (auto *T : DF.types())
      ditype(T);
    o["records"] = std::move(records);
    o["enums"] = std::move(enums);
    Array fs;
    for (auto &F : M)
      if (!F.isIntrinsic() || !F.getName().starts_with("llvm.dbg"))
        fs.push_back(fn(F));
    o["functions"] = std::move(fs);
    return o;
  }
};

int main(int argc, char **argv) {
  if (argc != 3)
    return 2;
  LLVMContext C;
  SMDiagnostic e;
  auto M = parseIRFile(argv[1], e, C);
  if (!M) {
    e.print("irdump", errs());
    return 2;
  }
  std::error_code ec;
  raw_fd_ostream os(argv[2], ec);
  if (ec)
    return 2;
  Dumper D(*M);
  os << JV(D.run());
  return 0;
}
