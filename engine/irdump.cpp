#include <cstring>
// irdump: links LLVM bitcode of the repository's translation units, normalises
// it (unknown helper functions and trivial accessors are inlined, memory
// promoted to SSA) and writes the program out as JSON for the analyses.
//
// usage: irdump <repo-root> <known-functions|-> <out.json> a.bc b.bc ...
#include <cstdio>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "llvm/ADT/SmallString.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"

using namespace llvm;

static std::string Root;

static std::string simpleName(const std::string& dem) {
  // strip the parameter list: cut at the '(' that closes the name, taking
  // care of "operator()" and "(anonymous namespace)".
  std::string s = dem;
  int depth = 0;
  // scan for first '(' at template depth 0 that is not "(anonymous".
  for (size_t i = 0; i < s.size(); ++i) {
    char c = s[i];
    if (c == '<') {
      if (i >= 8 && s.compare(i - 8, 8, "operator") == 0) continue;
      if (i >= 9 && s.compare(i - 9, 9, "operator<") == 0) continue;
      ++depth;
    } else if (c == '>') {
      if (i >= 8 && s.compare(i - 8, 8, "operator") == 0) continue;
      if (i >= 1 && s[i - 1] == '-') continue;
      if (depth > 0) --depth;
    } else if (c == '(' && depth == 0) {
      if (s.compare(i, 10, "(anonymous") == 0) {
        size_t e = s.find(')', i);
        if (e == std::string::npos) break;
        i = e;
        continue;
      }
      if (s.compare(i, 7, "('lambd") == 0) {
        size_t e = s.find(')', i);
        if (e == std::string::npos) break;
        i = e;
        continue;
      }
      if (i >= 8 && s.compare(i - 8, 8, "operator") == 0) {
        ++i;  // "operator()"
        continue;
      }
      return s.substr(0, i);
    }
  }
  return s;
}

static std::string cleanName(StringRef linkage) {
  std::string d = llvm::demangle(linkage.str());
  std::string s = simpleName(d);
  // drop a leading return type of template functions ("Status webm::f<..>"):
  int depth = 0;
  size_t cut = 0;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '<') ++depth;
    else if (s[i] == '>') { if (depth) --depth; }
    else if (s[i] == '(' ) ++depth;
    else if (s[i] == ')' ) { if (depth) --depth; }
    else if (s[i] == ' ' && depth == 0) {
      if (i >= 8 && s.compare(i - 8, 8, "operator") == 0) break;
      cut = i + 1;
    }
  }
  s = s.substr(cut);
  // a lambda is a function of its own, not the one it is written in
  if (s.find("'lambda") == std::string::npos && s.find("{lambda") == std::string::npos) {
    size_t at = d.rfind("::'lambda");
    if (at == std::string::npos) at = d.rfind("::{lambda");
    if (at == std::string::npos) at = d.rfind("::$_");
    size_t op = d.find("::operator()", at == std::string::npos ? 0 : at);
    if (at != std::string::npos && op != std::string::npos) s += "::lambda";
  }
  return s;
}

static bool inRepo(const DIFile* f, std::string* rel = nullptr) {
  if (!f) return false;
  std::string p = f->getFilename().str();
  if (!p.empty() && p[0] != '/') p = f->getDirectory().str() + "/" + p;
  if (p.compare(0, Root.size(), Root) != 0) return false;
  if (rel) {
    std::string r = p.substr(Root.size());
    while (!r.empty() && r[0] == '/') r = r.substr(1);
    *rel = r;
  }
  return true;
}

static bool fnInRepo(const Function& F, std::string* rel = nullptr) {
  if (F.isDeclaration()) return false;
  DISubprogram* sp = F.getSubprogram();
  return sp && inRepo(sp->getFile(), rel);
}

// ---------------------------------------------------------------- output
static json::Value encConst(const Constant* C, int depth);

struct FnCtx {
  std::map<const Value*, int> id;
};

static std::string typeStr(Type* t) {
  std::string s;
  raw_string_ostream os(s);
  if (auto* st = dyn_cast<StructType>(t)) {
    if (st->hasName()) return st->getName().str();
  }
  t->print(os);
  return os.str();
}

static json::Value encVal(const Value* v, const FnCtx& cx) {
  auto it = cx.id.find(v);
  if (it != cx.id.end()) {
    if (isa<Argument>(v)) return json::Array{"a", it->second};
    return json::Array{"i", it->second};
  }
  if (auto* c = dyn_cast<Constant>(v)) return encConst(c, 0);
  if (isa<MetadataAsValue>(v)) {
    auto* md = cast<MetadataAsValue>(v)->getMetadata();
    if (auto* s = dyn_cast<MDString>(md)) return json::Array{"md", s->getString().str()};
    return json::Array{"md", ""};
  }
  return json::Array{"?"};
}

static const DataLayout* DLp;

static json::Value encConst(const Constant* C, int depth) {
  if (auto* ci = dyn_cast<ConstantInt>(C)) {
    SmallString<40> s;
    ci->getValue().toStringSigned(s);
    return json::Array{"k", s.str().str(), (int)ci->getBitWidth()};
  }
  if (auto* cf = dyn_cast<ConstantFP>(C)) {
    SmallString<40> s;
    cf->getValueAPF().toString(s);
    return json::Array{"fp", s.str().str()};
  }
  if (isa<ConstantPointerNull>(C)) return json::Array{"n"};
  if (isa<UndefValue>(C)) return json::Array{"u"};
  if (auto* f = dyn_cast<Function>(C)) return json::Array{"f", f->getName().str()};
  if (auto* ga = dyn_cast<GlobalAlias>(C)) {
    if (auto* f = dyn_cast<Function>(ga->getAliaseeObject()))
      return json::Array{"f", f->getName().str()};
  }
  if (auto* g = dyn_cast<GlobalValue>(C)) return json::Array{"g", g->getName().str()};
  if (isa<ConstantAggregateZero>(C)) return json::Array{"z"};
  if (auto* cds = dyn_cast<ConstantDataSequential>(C)) {
    if (cds->isString()) return json::Array{"s", json::fixUTF8(cds->getAsString())};
    json::Array a;
    unsigned n = cds->getNumElements();
    for (unsigned i = 0; i < n && i < 4096; ++i) a.push_back(encConst(cds->getElementAsConstant(i), depth + 1));
    return json::Array{"arr", std::move(a)};
  }
  if (depth > 12) return json::Array{"?"};
  if (isa<ConstantArray>(C) || isa<ConstantStruct>(C) || isa<ConstantVector>(C)) {
    json::Array a;
    for (unsigned i = 0; i < C->getNumOperands(); ++i)
      a.push_back(encConst(cast<Constant>(C->getOperand(i)), depth + 1));
    return json::Array{"arr", std::move(a)};
  }
  if (auto* ce = dyn_cast<ConstantExpr>(C)) {
    if (auto* gep = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (gep->accumulateConstantOffset(*DLp, off))
        return json::Array{"ge", encConst(cast<Constant>(gep->getPointerOperand()), depth + 1), (int64_t)off.getSExtValue()};
    }
    json::Array a;
    for (unsigned i = 0; i < ce->getNumOperands(); ++i)
      a.push_back(encConst(cast<Constant>(ce->getOperand(i)), depth + 1));
    return json::Array{"x", ce->getOpcodeName(), std::move(a)};
  }
  return json::Array{"?"};
}

static std::string qualScope(const DIScope* s) {
  std::string out;
  while (s) {
    std::string n;
    if (auto* ns = dyn_cast<DINamespace>(s)) n = ns->getName().empty() ? "(anonymous namespace)" : ns->getName().str();
    else if (auto* ct = dyn_cast<DICompositeType>(s)) n = ct->getName().str();
    else if (auto* sp = dyn_cast<DISubprogram>(s)) n = sp->getName().str();
    else break;
    out = out.empty() ? n : n + "::" + out;
    s = s->getScope();
  }
  return out;
}

static std::string diTypeName(const DIType* t, int depth = 0) {
  if (!t) return "void";
  if (depth > 8) return "?";
  if (auto* d = dyn_cast<DIDerivedType>(t)) {
    auto tag = d->getTag();
    if (tag == dwarf::DW_TAG_pointer_type) return diTypeName(d->getBaseType(), depth + 1) + "*";
    if (tag == dwarf::DW_TAG_reference_type) return diTypeName(d->getBaseType(), depth + 1) + "&";
    if (tag == dwarf::DW_TAG_rvalue_reference_type) return diTypeName(d->getBaseType(), depth + 1) + "&&";
    if (tag == dwarf::DW_TAG_const_type) return "const " + diTypeName(d->getBaseType(), depth + 1);
    if (tag == dwarf::DW_TAG_volatile_type) return diTypeName(d->getBaseType(), depth + 1);
    if (tag == dwarf::DW_TAG_typedef) return diTypeName(d->getBaseType(), depth + 1);
    if (tag == dwarf::DW_TAG_ptr_to_member_type) return "memptr";
    return d->getName().str();
  }
  if (auto* c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) {
      std::string s = diTypeName(c->getBaseType(), depth + 1);
      for (auto* e : c->getElements())
        if (auto* sr = dyn_cast<DISubrange>(e)) {
          int64_t n = -1;
          if (auto* ci = dyn_cast_if_present<ConstantInt*>(sr->getCount())) n = ci->getSExtValue();
          s += "[" + std::to_string(n) + "]";
        }
      return s;
    }
    std::string q = qualScope(c->getScope());
    return q.empty() ? c->getName().str() : q + "::" + c->getName().str();
  }
  if (isa<DISubroutineType>(t)) return "fn";
  return t->getName().str();
}

int main(int argc, char** argv) {
  if (argc < 5) {
    errs() << "usage\n";
    return 2;
  }
  Root = argv[1];
  std::set<std::string> known;
  bool haveKnown = std::string(argv[2]) != "-";
  if (haveKnown) {
    std::ifstream in(argv[2]);
    if (!in) { errs() << "cannot read " << argv[2] << "\n"; return 2; }
    std::string l;
    while (std::getline(in, l)) if (!l.empty()) known.insert(l);
  }
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = std::make_unique<Module>("all", ctx);
  Linker L(*M);
  for (int i = 4; i < argc; ++i) {
    auto m = parseIRFile(argv[i], err, ctx);
    if (!m) { err.print("irdump", errs()); return 2; }
    if (L.linkInModule(std::move(m))) { errs() << "link failed\n"; return 2; }
  }
  const DataLayout& DL = M->getDataLayout();
  DLp = &DL;

  // --- normalise
  std::vector<std::string> inlined;
  std::set<std::string> all;
  for (Function& F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone);
    if (!fnInRepo(F)) continue;
    F.removeFnAttr(Attribute::NoInline);
    std::string nm = cleanName(F.getName());
    all.insert(nm);
    bool inl = false;
    if (haveKnown && !known.count(nm)) inl = true;
    // recursion guard: AlwaysInliner copes with direct recursion by refusing.
    if (inl) {
      bool direct = false;
      for (auto& BB : F) for (auto& I : BB)
        if (auto* cb = dyn_cast<CallBase>(&I)) if (cb->getCalledFunction() == &F) direct = true;
      if (direct) inl = false;
    }
    if (inl) {
      F.addFnAttr(Attribute::AlwaysInline);
      inlined.push_back(nm);
    }
  }
  // Smart-pointer plumbing is looked through, so that what the pointer holds is visible.
  for (Function& F : *M) {
    if (F.isDeclaration() || fnInRepo(F)) continue;
    std::string nm = cleanName(F.getName());
    static const char* const kStd[] = {"std::unique_ptr<", "std::__uniq_ptr_impl<", "std::__uniq_ptr_data<",
                                       "std::tuple<", "std::_Tuple_impl<", "std::_Head_base<", "std::get<",
                                       "std::__get_helper<", "std::default_delete<", "std::forward<", "std::move<",
                                       "std::swap<"};
    for (const char* k : kStd)
      if (nm.compare(0, strlen(k), k) == 0) {
        F.removeFnAttr(Attribute::NoInline);
        F.addFnAttr(Attribute::AlwaysInline);
        break;
      }
  }
  PassBuilder PB;
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  auto run = [&](const char* p) {
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, p)) { errs() << toString(std::move(e)) << "\n"; exit(2); }
    MPM.run(*M, MAM);
  };
  run("always-inline,function(sroa)");
  // Inline trivial accessors: single block, no calls other than intrinsics.
  for (Function& F : *M) {
    if (F.isDeclaration() || !fnInRepo(F) || F.hasFnAttribute(Attribute::AlwaysInline)) continue;
    if (F.size() != 1) continue;
    bool leaf = true;
    int n = 0;
    for (auto& I : F.front()) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      ++n;
      if (isa<CallBase>(I)) leaf = false;
    }
    if (leaf && n <= 12) F.addFnAttr(Attribute::AlwaysInline);
  }
  // The result type's own predicates are always looked through.
  for (Function& F : *M) {
    if (F.isDeclaration() || !fnInRepo(F)) continue;
    if (cleanName(F.getName()).compare(0, 14, "webm::Status::") == 0) F.addFnAttr(Attribute::AlwaysInline);
  }
  run("always-inline,function(sroa,early-cse,instsimplify)");

  json::OStream* J;
  std::error_code ec;
  raw_fd_ostream out(argv[3], ec);
  if (ec) { errs() << ec.message() << "\n"; return 2; }
  json::OStream jo(out);
  J = &jo;
  std::map<std::string, bool> dumpTypes;
  DebugInfoFinder dif;
  dif.processModule(*M);

  J->objectBegin();
  J->attributeBegin("inlined_helpers");
  J->arrayBegin();
  for (auto& s : inlined) J->value(s);
  J->arrayEnd();
  J->attributeEnd();

  if (!haveKnown) {
    J->attributeBegin("all_functions");
    J->arrayBegin();
    for (auto& s : all) J->value(json::fixUTF8(s));
    J->arrayEnd();
    J->attributeEnd();
  }

  // ---- functions
  J->attributeBegin("functions");
  J->arrayBegin();
  for (Function& F : *M) {
    if (F.isIntrinsic()) continue;
    std::string rel;
    bool repo = fnInRepo(F, &rel);
    J->objectBegin();
    J->attribute("name", F.getName());
    J->attribute("clean", json::fixUTF8(cleanName(F.getName())));
    J->attribute("dem", json::fixUTF8(llvm::demangle(F.getName().str())));
    J->attribute("repo", repo);
    J->attribute("decl", F.isDeclaration());
    J->attribute("noreturn", F.hasFnAttribute(Attribute::NoReturn));
    J->attribute("internal", F.hasLocalLinkage());
    if (!repo) { J->objectEnd(); continue; }
    DISubprogram* sp = F.getSubprogram();
    J->attribute("file", rel);
    J->attribute("line", (int64_t)sp->getLine());
    DISubprogram* decl = sp->getDeclaration() ? sp->getDeclaration() : sp;
    std::string cls;
    if (auto* ct = dyn_cast_or_null<DICompositeType>(decl->getScope())) {
      cls = qualScope(ct);
      J->attribute("cls", json::fixUTF8(cls));
      J->attribute("clsid", ct->getIdentifier());
    }
    J->attribute("bname", json::fixUTF8(sp->getName()));
    J->attribute("virtual", decl->getVirtuality() != 0);
    J->attribute("artificial", decl->isArtificial() || sp->isArtificial());
    int acc = decl->isPublic() ? 1 : decl->isProtected() ? 2 : decl->isPrivate() ? 3 : 0;
    J->attribute("access", acc);
    if (auto* st = sp->getType()) {
      auto arr = st->getTypeArray();
      J->attribute("ret", json::fixUTF8(arr.size() ? diTypeName(arr[0]) : "void"));
      J->attributeBegin("ptypes");
      J->arrayBegin();
      for (unsigned i = 1; i < arr.size(); ++i) J->value(json::fixUTF8(diTypeName(arr[i])));
      J->arrayEnd();
      J->attributeEnd();
    }
    J->attribute("rty", typeStr(F.getReturnType()));
    J->attribute("sret", F.arg_size() > 0 && F.getArg(0)->hasStructRetAttr());
    FnCtx cx;
    int n = 0;
    for (auto& A : F.args()) cx.id[&A] = n++;
    J->attribute("nargs", n);
    std::map<int, std::string> argNames;
    std::map<const Value*, std::string> varNames;
    std::map<const Value*, std::string> varTypes;
    int id = 0;
    std::map<const BasicBlock*, int> bid;
    for (auto& BB : F) {
      bid[&BB] = (int)bid.size();
      for (auto& I : BB) {
        if (auto* dd = dyn_cast<DbgVariableIntrinsic>(&I)) {
          if (dd->getNumVariableLocationOps() >= 1) {
            const Value* loc = dd->getVariableLocationOp(0);
            DILocalVariable* var = dd->getVariable();
            if (loc && isa<Argument>(loc) && var->getArg() && !dd->getDebugLoc()->getInlinedAt())
              argNames[cx.id[loc]] = var->getName().str();
            if (loc && (isa<AllocaInst>(loc) || isa<Instruction>(loc)) && !varNames.count(loc)) {
              varNames[loc] = var->getName().str();
              varTypes[loc] = diTypeName(var->getType());
            }
          }
          continue;
        }
        if (isa<DbgInfoIntrinsic>(I)) continue;
        cx.id[&I] = id++;
      }
    }
    J->attributeBegin("args");
    J->arrayBegin();
    for (int i = 0; i < n; ++i) J->value(argNames.count(i) ? argNames[i] : std::string());
    J->arrayEnd();
    J->attributeEnd();
    J->attributeBegin("atypes");
    J->arrayBegin();
    for (auto& A : F.args()) J->value(typeStr(A.getType()));
    J->arrayEnd();
    J->attributeEnd();
    J->attributeBegin("blocks");
    J->arrayBegin();
    for (auto& BB : F) {
      J->arrayBegin();
      for (auto& I : BB) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        J->objectBegin();
        J->attribute("id", cx.id[&I]);
        J->attribute("op", I.getOpcodeName());
        J->attribute("ty", typeStr(I.getType()));
        if (const DebugLoc& dl = I.getDebugLoc()) {
          J->attribute("ln", (int64_t)dl.getLine());
          std::string r2;
          if (auto* sc = dyn_cast_or_null<DIScope>(dl.getScope())) {
            if (inRepo(sc->getFile(), &r2)) { if (r2 != rel) J->attribute("fl", r2); }
            else J->attribute("fl", "?");
          }
        }
        if (varNames.count(&I)) { J->attribute("var", json::fixUTF8(varNames[&I])); J->attribute("vty", json::fixUTF8(varTypes[&I])); }
        auto ops = [&](auto begin, auto end) {
          J->attributeBegin("o");
          J->arrayBegin();
          for (auto it = begin; it != end; ++it) J->value(encVal(*it, cx));
          J->arrayEnd();
          J->attributeEnd();
        };
        if (auto* cb = dyn_cast<CallBase>(&I)) {
          if (auto* f = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases())) J->attribute("callee", f->getName());
          else { J->attributeBegin("cv"); J->value(encVal(cb->getCalledOperand(), cx)); J->attributeEnd(); }
          ops(cb->arg_begin(), cb->arg_end());
          if (isa<InvokeInst>(I)) {
            J->attributeBegin("succ"); J->arrayBegin();
            for (unsigned s = 0; s < I.getNumSuccessors(); ++s) J->value(bid[I.getSuccessor(s)]);
            J->arrayEnd(); J->attributeEnd();
          }
        } else if (auto* p = dyn_cast<PHINode>(&I)) {
          J->attributeBegin("in"); J->arrayBegin();
          for (unsigned k = 0; k < p->getNumIncomingValues(); ++k) {
            J->arrayBegin(); J->value(encVal(p->getIncomingValue(k), cx)); J->value(bid[p->getIncomingBlock(k)]); J->arrayEnd();
          }
          J->arrayEnd(); J->attributeEnd();
        } else if (auto* br = dyn_cast<BranchInst>(&I)) {
          if (br->isConditional()) { J->attributeBegin("o"); J->arrayBegin(); J->value(encVal(br->getCondition(), cx)); J->arrayEnd(); J->attributeEnd(); }
          J->attributeBegin("succ"); J->arrayBegin();
          for (unsigned s = 0; s < br->getNumSuccessors(); ++s) J->value(bid[br->getSuccessor(s)]);
          J->arrayEnd(); J->attributeEnd();
        } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
          J->attributeBegin("o"); J->arrayBegin(); J->value(encVal(sw->getCondition(), cx)); J->arrayEnd(); J->attributeEnd();
          J->attributeBegin("cases"); J->arrayBegin();
          for (auto& c : sw->cases()) { J->arrayBegin(); J->value(encVal(c.getCaseValue(), cx)); J->value(bid[c.getCaseSuccessor()]); J->arrayEnd(); }
          J->arrayEnd(); J->attributeEnd();
          J->attributeBegin("succ"); J->arrayBegin();
          J->value(bid[sw->getDefaultDest()]);
          for (auto& c : sw->cases()) J->value(bid[c.getCaseSuccessor()]);
          J->arrayEnd(); J->attributeEnd();
        } else if (auto* gep = dyn_cast<GetElementPtrInst>(&I)) {
          APInt off(DL.getIndexTypeSizeInBits(gep->getType()), 0);
          J->attribute("sty", typeStr(gep->getSourceElementType()));
          if (gep->accumulateConstantOffset(DL, off)) J->attribute("off", (int64_t)off.getSExtValue());
          else {
            // constant part + scaled variable indices
            MapVector<Value*, APInt> vo; APInt co(DL.getIndexTypeSizeInBits(gep->getType()), 0);
            if (gep->collectOffset(DL, DL.getIndexTypeSizeInBits(gep->getType()), vo, co)) {
              J->attribute("coff", (int64_t)co.getSExtValue());
              J->attributeBegin("voff"); J->arrayBegin();
              for (auto& kv : vo) { J->arrayBegin(); J->value(encVal(kv.first, cx)); J->value((int64_t)kv.second.getSExtValue()); J->arrayEnd(); }
              J->arrayEnd(); J->attributeEnd();
            }
          }
          ops(gep->op_begin(), gep->op_end());
        } else {
          if (auto* ic = dyn_cast<CmpInst>(&I)) J->attribute("pred", CmpInst::getPredicateName(ic->getPredicate()));
          if (auto* al = dyn_cast<AllocaInst>(&I)) {
            J->attribute("aty", typeStr(al->getAllocatedType()));
            if (auto sz = al->getAllocationSize(DL)) J->attribute("asz", (int64_t)sz->getFixedValue());
          }
          if (isa<BinaryOperator>(I)) {
            if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&I)) { if (ob->hasNoSignedWrap()) J->attribute("nsw", true); }
          }
          if (auto* st = dyn_cast<StoreInst>(&I)) J->attribute("sz", (int64_t)DL.getTypeStoreSize(st->getValueOperand()->getType()).getFixedValue());
          if (isa<LoadInst>(I)) J->attribute("sz", (int64_t)DL.getTypeStoreSize(I.getType()).getFixedValue());
          ops(I.op_begin(), I.op_end());
          if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { J->attributeBegin("idx"); J->arrayBegin(); for (auto x : ev->indices()) J->value((int64_t)x); J->arrayEnd(); J->attributeEnd(); }
          if (auto* iv = dyn_cast<InsertValueInst>(&I)) { J->attributeBegin("idx"); J->arrayBegin(); for (auto x : iv->indices()) J->value((int64_t)x); J->arrayEnd(); J->attributeEnd(); }
        }
        J->objectEnd();
      }
      J->arrayEnd();
    }
    J->arrayEnd();
    J->attributeEnd();
    J->objectEnd();
  }
  J->arrayEnd();
  J->attributeEnd();

  // ---- globals
  J->attributeBegin("globals");
  J->arrayBegin();
  for (GlobalVariable& G : M->globals()) {
    if (G.getName().starts_with("llvm.")) continue;
    J->objectBegin();
    J->attribute("name", G.getName());
    J->attribute("dem", json::fixUTF8(llvm::demangle(G.getName().str())));
    J->attribute("const", G.isConstant());
    J->attribute("tls", G.isThreadLocal());
    J->attribute("decl", G.isDeclaration());
    SmallVector<DIGlobalVariableExpression*, 1> gv;
    G.getDebugInfo(gv);
    for (auto* e : gv) {
      std::string rel;
      if (inRepo(e->getVariable()->getFile(), &rel)) {
        J->attribute("file", rel);
        J->attribute("line", (int64_t)e->getVariable()->getLine());
        J->attribute("dty", json::fixUTF8(diTypeName(e->getVariable()->getType())));
        break;
      }
    }
    if (G.hasInitializer()) {
      J->attributeBegin("init");
      J->value(encConst(G.getInitializer(), 0));
      J->attributeEnd();
      J->attribute("size", (int64_t)DL.getTypeAllocSize(G.getValueType()).getFixedValue());
    }
    SmallVector<MDNode*, 4> types;
    G.getMetadata(LLVMContext::MD_type, types);
    if (!types.empty()) {
      J->attributeBegin("types");
      J->arrayBegin();
      for (auto* t : types) {
        auto* off = mdconst::extract<ConstantInt>(t->getOperand(0));
        if (auto* s = dyn_cast<MDString>(t->getOperand(1))) {
          J->arrayBegin(); J->value((int64_t)off->getZExtValue()); J->value(s->getString()); J->arrayEnd();
        }
      }
      J->arrayEnd();
      J->attributeEnd();
    }
    J->objectEnd();
  }
  J->arrayEnd();
  J->attributeEnd();

  // ---- types
  J->attributeBegin("types");
  J->arrayBegin();
  std::set<std::string> seen;
  for (DIType* t : dif.types()) {
    auto* c = dyn_cast<DICompositeType>(t);
    if (!c) continue;
    auto tag = c->getTag();
    if (tag != dwarf::DW_TAG_structure_type && tag != dwarf::DW_TAG_class_type && tag != dwarf::DW_TAG_union_type && tag != dwarf::DW_TAG_enumeration_type) continue;
    if (c->isForwardDecl()) continue;
    std::string rel;
    bool repo = inRepo(c->getFile(), &rel);
    std::string qn = diTypeName(c);
    if (!repo && qn.find("webm") == std::string::npos && qn.find("mkv") == std::string::npos) continue;
    std::string key = c->getIdentifier().str() + "|" + qn;
    if (!seen.insert(key).second) continue;
    J->objectBegin();
    J->attribute("name", json::fixUTF8(qn));
    J->attribute("id", c->getIdentifier());
    J->attribute("repo", repo);
    if (repo) J->attribute("file", rel);
    J->attribute("line", (int64_t)c->getLine());
    J->attribute("tag", (int)tag);
    J->attribute("size", (int64_t)c->getSizeInBits() / 8);
    J->attributeBegin("members");
    J->arrayBegin();
    for (auto* e : c->getElements()) {
      if (!e) continue;
      if (auto* en = dyn_cast<DIEnumerator>(e)) {
        SmallString<40> s;
        en->getValue().toString(s, 10, !en->isUnsigned());
        J->value(json::Array{"enum", en->getName().str(), s.str().str()});
      } else if (auto* d = dyn_cast<DIDerivedType>(e)) {
        if (d->getTag() == dwarf::DW_TAG_inheritance)
          J->value(json::Array{"base", json::fixUTF8(diTypeName(d->getBaseType())), (int64_t)d->getOffsetInBits() / 8});
        else if (d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember())
          J->value(json::Array{"field", d->getName().str(), (int64_t)d->getOffsetInBits() / 8, (int64_t)d->getSizeInBits() / 8, json::fixUTF8(diTypeName(d->getBaseType())), d->isPublic() ? 1 : d->isProtected() ? 2 : d->isPrivate() ? 3 : 0});
        else if (d->isStaticMember())
          J->value(json::Array{"static", d->getName().str(), json::fixUTF8(diTypeName(d->getBaseType()))});
      } else if (auto* sp = dyn_cast<DISubprogram>(e)) {
        json::Array pt;
        if (auto* st = sp->getType()) { auto arr = st->getTypeArray(); for (unsigned i = 0; i < arr.size(); ++i) pt.push_back(json::fixUTF8(diTypeName(arr[i]))); }
        J->value(json::Array{"method", json::fixUTF8(sp->getName()), sp->getLinkageName().str(), (int)sp->getVirtuality(), sp->isDeleted(), sp->isPublic() ? 1 : sp->isProtected() ? 2 : sp->isPrivate() ? 3 : 0, (int64_t)sp->getVirtualIndex(), std::move(pt), sp->isArtificial(), sp->isDefinition()});
      }
    }
    J->arrayEnd();
    J->attributeEnd();
    J->objectEnd();
  }
  J->arrayEnd();
  J->attributeEnd();
  J->objectEnd();
  out.flush();
  return 0;
}
