// irx: turn LLVM bitcode of the driver translation unit into a JSON description of the
// type-checked, call-expanded program that the Python rules in /verif/lib analyse.
//
//   irx IN.bc OUT.json [--eh] [--boundary REGEX]... [--root DIR]
//
// Every function whose source file is below --root (the project's headers) is expanded into its
// callers, except the functions whose demangled name matches a --boundary regex; so are the trivial
// std:: wrappers (array, atomic, min, max, forward, move, unique_ptr accessors).
// --eh keeps exceptional edges (invoke); without it they are dropped (lowerinvoke).
#include "llvm/ADT/SmallPtrSet.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/ADT/StringExtras.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Instructions.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/LowerInvoke.h"
#include "llvm/Transforms/Utils/UnifyFunctionExitNodes.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
using std::string;

static const DataLayout *DL;
static std::map<string, std::vector<std::pair<uint64_t, string>>> FieldsOf; // qualified struct -> (byte off, name)

static string strip(const string &d) { // cut the argument list of a demangled name
  int depth = 0;
  for (size_t i = 0; i < d.size(); i++) {
    char c = d[i];
    if (c == '{') { while (i < d.size() && d[i] != '}') i++; continue; }
    if (c == '<' ) depth++;
    else if (c == '>' && i && d[i-1] != '-') depth--;
    if (c == '(' && depth <= 0) {
      if (d.compare(i, 22, "(anonymous namespace)") == 0) { i += 20; continue; }
      if (i >= 8 && d.compare(i - 8, 8, "operator") == 0) { i++; continue; }
      // a local entity (lambda, local class): its own name follows the enclosing function's arguments
      size_t j = i; int p = 0;
      for (; j < d.size(); j++) { if (d[j] == '(') p++; else if (d[j] == ')' && --p == 0) break; }
      size_t k = j + 1;
      if (d.compare(k, 6, " const") == 0) k += 6;
      if (j < d.size() && d.compare(k, 2, "::") == 0) return d.substr(0, i) + "::" + strip(d.substr(k + 2));
      return d.substr(0, i);
    }
  }
  return d;
}
static string dem(StringRef n) { return demangle(n.str()); }

static string scopeName(const DIScope *s) {
  if (!s) return "";
  string r;
  if (auto *ns = dyn_cast<DINamespace>(s)) r = ns->getName().str();
  else if (auto *t = dyn_cast<DIType>(s)) r = t->getName().str();
  else if (auto *sp = dyn_cast<DISubprogram>(s)) r = sp->getName().str();
  else return "";
  string p = scopeName(s->getScope());
  return p.empty() ? r : p + "::" + r;
}
// the project structure a field is made of (through typedefs, arrays and std::array); with ptr: the one it points to
static string elemStruct(const DIType *t, bool ptr = false, int depth = 0) {
  for (; t && depth < 32; depth++) {
    if (auto *d = dyn_cast<DIDerivedType>(t)) {
      auto tag = d->getTag();
      if (tag == dwarf::DW_TAG_pointer_type || tag == dwarf::DW_TAG_reference_type || tag == dwarf::DW_TAG_rvalue_reference_type) { if (!ptr) return ""; ptr = false; }
      t = d->getBaseType(); continue;
    }
    auto *c = dyn_cast<DICompositeType>(t);
    if (!c) return "";
    if (c->getTag() == dwarf::DW_TAG_array_type) { t = c->getBaseType(); continue; }
    if (ptr) return "";
    string q = scopeName(c->getScope()); q = q.empty() ? c->getName().str() : q + "::" + c->getName().str();
    if (q.find("std::array<") == 0 || StringRef(c->getName()).starts_with("array<")) {
      const DIType *nx = nullptr;
      for (auto *el : c->getElements()) if (auto *m = dyn_cast<DIDerivedType>(el)) if (m->getName() == "_M_elems") nx = m->getBaseType();
      if (!nx) for (auto *tp : c->getTemplateParams()) if (auto *ty = dyn_cast<DITemplateTypeParameter>(tp)) { nx = ty->getType(); break; }
      t = nx; continue;
    }
    return q;
  }
  return "";
}
static string stripStructPrefix(StringRef n) {
  if (n.starts_with("struct.")) n = n.drop_front(7);
  else if (n.starts_with("class.")) n = n.drop_front(6);
  else if (n.starts_with("union.")) n = n.drop_front(6);
  return n.str();
}
static string fieldName(StructType *st, unsigned idx) {
  if (!st->hasName()) return "";
  auto it = FieldsOf.find(stripStructPrefix(st->getName()));
  if (it == FieldsOf.end()) return "";
  uint64_t off = DL->getStructLayout(st)->getElementOffset(idx);
  for (auto &p : it->second)
    if (p.first == off) return p.second;
  return "";
}
static string tyStr(Type *t) {
  if (t->isPointerTy()) return "ptr";
  if (auto *s = dyn_cast<StructType>(t)) if (s->hasName()) return "%" + stripStructPrefix(s->getName());
  string r; raw_string_ostream os(r); t->print(os); return os.str();
}

struct Exp {
  std::map<const Value *, int> ids;
  json::Value val(const Value *v, int depth = 0) {
    if (auto *ci = dyn_cast<ConstantInt>(v)) {
      SmallString<40> s; ci->getValue().toStringSigned(s);
      return json::Array{"c", s.str().str(), (int64_t)ci->getBitWidth()};
    }
    if (isa<ConstantPointerNull>(v)) return json::Array{"n"};
    if (isa<UndefValue>(v)) return json::Array{"u"};
    if (auto *cf = dyn_cast<ConstantFP>(v)) {
      double d = cf->getType()->isDoubleTy() ? cf->getValueAPF().convertToDouble()
               : cf->getType()->isFloatTy() ? (double)cf->getValueAPF().convertToFloat() : 0.0;
      SmallString<32> s; cf->getValueAPF().toString(s);
      (void)d;
      return json::Array{"f", s.str().str()};
    }
    if (auto *a = dyn_cast<Argument>(v)) return json::Array{"a", (int64_t)a->getArgNo()};
    if (auto *f = dyn_cast<Function>(v)) return json::Array{"fn", f->getName().str(), dem(f->getName())};
    if (auto *g = dyn_cast<GlobalVariable>(v)) return json::Array{"g", g->getName().str()};
    if (auto *bb = dyn_cast<BasicBlock>(v)) return json::Array{"b", ids.at(bb)};
    if (isa<ConstantAggregateZero>(v)) return json::Array{"z"};
    if (auto *ce = dyn_cast<ConstantExpr>(v)) {
      if (depth > 8) return json::Array{"?"};
      if (auto *go = dyn_cast<GEPOperator>(ce)) {
        return json::Array{"xg", val(go->getPointerOperand(), depth + 1), gepPath(const_cast<GEPOperator *>(go), depth + 1)};
      }
      json::Array ops; for (auto &o : ce->operands()) ops.push_back(val(o.get(), depth + 1));
      return json::Array{"x", ce->getOpcodeName(), std::move(ops)};
    }
    if (auto *cs = dyn_cast<ConstantStruct>(v)) {
      json::Array ops; for (auto &o : cs->operands()) ops.push_back(val(o.get(), depth + 1));
      return json::Array{"s", std::move(ops)};
    }
    if (auto *ca = dyn_cast<ConstantArray>(v)) {
      json::Array ops; for (auto &o : ca->operands()) ops.push_back(val(o.get(), depth + 1));
      return json::Array{"s", std::move(ops)};
    }
    if (auto *cd = dyn_cast<ConstantDataSequential>(v)) {
      if (cd->isString()) {
        json::Array bytes; StringRef s = cd->getRawDataValues();
        if (s.size() > 100000) return json::Array{"?"};
        string hex = toHex(s);
        return json::Array{"str", hex};
      }
      json::Array ops; for (unsigned i = 0; i < cd->getNumElements(); i++) ops.push_back(val(cd->getElementAsConstant(i), depth + 1));
      return json::Array{"s", std::move(ops)};
    }
    auto it = ids.find(v);
    if (it != ids.end()) return json::Array{"i", it->second};
    return json::Array{"?"};
  }
  json::Array gepPath(GEPOperator *go, int depth = 0) {
    json::Array path;
    Type *cur = go->getSourceElementType();
    bool first = true;
    for (auto it = go->idx_begin(); it != go->idx_end(); ++it) {
      Value *ix = it->get();
      if (first) {
        first = false;
        auto *ci = dyn_cast<ConstantInt>(ix);
        if (!(ci && ci->isZero()))
          path.push_back(json::Array{"x", val(ix, depth), (int64_t)DL->getTypeAllocSize(cur).getFixedValue(), -1, tyStr(cur)});
        continue;
      }
      if (auto *st = dyn_cast<StructType>(cur)) {
        unsigned n = cast<ConstantInt>(ix)->getZExtValue();
        string sn = st->hasName() ? stripStructPrefix(st->getName()) : "";
        path.push_back(json::Array{"f", sn, (int64_t)n, fieldName(st, n),
                                   (int64_t)DL->getStructLayout(st)->getElementOffset(n),
                                   (int64_t)DL->getTypeAllocSize(st->getElementType(n)).getFixedValue()});
        cur = st->getElementType(n);
      } else if (auto *at = dyn_cast<ArrayType>(cur)) {
        cur = at->getElementType();
        path.push_back(json::Array{"x", val(ix, depth), (int64_t)DL->getTypeAllocSize(cur).getFixedValue(),
                                   (int64_t)at->getNumElements(), tyStr(cur)});
      } else {
        path.push_back(json::Array{"?"});
        break;
      }
    }
    return path;
  }
};

static const char *ordStr(AtomicOrdering o) { return toIRString(o); }

static std::map<const DILocation *, int> LocIds;
static json::Array LocTab;
static json::Value dbg(const Instruction &I) {
  const DILocation *l = I.getDebugLoc().get();
  if (!l) return nullptr;
  auto it = LocIds.find(l);
  if (it != LocIds.end()) return it->second;
  json::Array chain;
  for (const DILocation *c = l; c; c = c->getInlinedAt()) {
    auto *sp = c->getScope()->getSubprogram();
    string f = c->getFilename().str();
    string fn = sp ? (sp->getLinkageName().empty() ? sp->getName().str() : dem(sp->getLinkageName())) : "";
    chain.push_back(json::Array{f, (int64_t)c->getLine(), strip(fn)});
  }
  int id = (int)LocTab.size();
  LocIds[l] = id;
  LocTab.push_back(std::move(chain));
  return id;
}

int main(int argc, char **argv) {
  string in, out, root = "/repo/";
  bool eh = false;
  std::vector<Regex> boundary;
  std::vector<string> pos;
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    if (a == "--eh") eh = true;
    else if (a == "--boundary") boundary.emplace_back(argv[++i]);
    else if (a == "--root") root = argv[++i];
    else pos.push_back(a);
  }
  if (pos.size() != 2) { errs() << "usage: irx IN.bc OUT.json\n"; return 2; }
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(pos[0], err, ctx);
  if (!M) { err.print("irx", errs()); return 2; }
  DL = &M->getDataLayout();

  DebugInfoFinder finder;
  finder.processModule(*M);
  json::Object enums, dstructs;
  for (auto *t : finder.types()) {
    auto *c = dyn_cast<DICompositeType>(t);
    if (!c) continue;
    string q = scopeName(c->getScope());
    q = q.empty() ? c->getName().str() : q + "::" + c->getName().str();
    if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
      json::Object e;
      for (auto *el : c->getElements())
        if (auto *en = dyn_cast<DIEnumerator>(el)) e[en->getName().str()] = en->getValue().getSExtValue();
      enums[q] = std::move(e);
    } else if ((c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_class_type) && !c->isForwardDecl()) {
      std::vector<std::pair<uint64_t, string>> fs;
      json::Array arr; json::Object consts;
      for (auto *el : c->getElements()) {
        auto *m = dyn_cast<DIDerivedType>(el);
        if (!m || m->getTag() != dwarf::DW_TAG_member) continue;
        if (m->isStaticMember()) {
          if (auto *ci = dyn_cast_or_null<ConstantInt>(m->getConstant())) consts[m->getName().str()] = ci->getSExtValue();
          continue;
        }
        fs.push_back({m->getOffsetInBits() / 8, m->getName().str()});
        string tn; uint64_t sz = m->getSizeInBits() / 8;
        if (auto *bt = m->getBaseType()) { tn = bt->getName().str(); if (!sz) sz = bt->getSizeInBits() / 8; }
        arr.push_back(json::Array{m->getName().str(), (int64_t)(m->getOffsetInBits() / 8), (int64_t)sz, tn, elemStruct(m->getBaseType()), elemStruct(m->getBaseType(), true)});
      }
      FieldsOf[q] = fs;
      if (q.find("FNLog") == 0 || q == "UDPHandler")
        dstructs[q] = json::Object{{"fields", std::move(arr)}, {"consts", std::move(consts)}, {"size", (int64_t)(c->getSizeInBits() / 8)}};
    }
  }

  // which functions are expanded
  json::Array inlined, kept;
  static const char *stdInline[] = {
      "^std::array<", "^std::__array_traits<", "^std::atomic<", "^std::__atomic_base<", "^std::operator&\\(std::memory_order", "^std::operator\\|\\(std::memory_order",
      "std::__cmpexch_failure_order", "^int& std::", "std::forward<", "std::move<", "std::max<", "std::min<", "std::__addressof", "std::addressof<",
      "std::unique_ptr<.*>::(get|operator\\*|operator->)", "std::__uniq_ptr_impl<.*>::_M_ptr", "std::fabs", "std::fpclassify", "std::signbit",
      "std::is_constant_evaluated", "std::__is_constant_evaluated", "std::get<", "std::__get_helper<", "std::_Tuple_impl<.*>::_M_head", "std::_Head_base<.*>::_M_head",
      " std::swap<(unsigned |signed |long |short |int|char|bool|const|\\*| )+>\\(", "std::exchange<", "std::__exchange<", "std::__pair_get", "std::pair<[^(]*>::pair<", "std::make_pair<", "std::pair<[^(]*>::pair\\("};
  std::vector<Regex> stdRe;
  for (auto *p : stdInline) stdRe.emplace_back(p);
  std::set<string> projFns;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    string d = dem(F.getName());
    auto *sp = F.getSubprogram();
    string file;
    if (sp && sp->getFile()) {
      file = sp->getFile()->getFilename().str();
      if (!file.empty() && file[0] != '/') file = sp->getFile()->getDirectory().str() + "/" + file;
    }
    bool proj = file.rfind(root, 0) == 0;
    bool bound = false;
    string sd = strip(d);
    for (auto &r : boundary) if (r.match(sd)) bound = true;
    bool isStd = false;
    if (!proj) for (auto &r : stdRe) if (r.match(sd) || r.match(d)) isStd = true;
    F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::NoInline);
    F.removeFnAttr(Attribute::AlwaysInline);
    if (proj) projFns.insert(F.getName().str());
    bool selfrec = false;
    for (auto &I : instructions(F)) if (auto *cb = dyn_cast<CallBase>(&I)) if (cb->getCalledFunction() == &F) selfrec = true;
    if ((proj || isStd) && !bound && !selfrec) { F.addFnAttr(Attribute::AlwaysInline); inlined.push_back(sd); }
    else { F.addFnAttr(Attribute::NoInline); if (proj) kept.push_back(sd); }
  }

  PassBuilder PB;
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  if (!eh) MPM.addPass(createModuleToFunctionPassAdaptor(LowerInvokePass()));
  MPM.addPass(AlwaysInlinerPass(false));
  FunctionPassManager FPM;
  FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
  FPM.addPass(ADCEPass());
  FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
  FPM.addPass(EarlyCSEPass(false));
  FPM.addPass(ADCEPass());
  MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
  MPM.run(*M, MAM);
  if (verifyModule(*M, &errs())) { errs() << "irx: broken module\n"; return 2; }

  json::Object funcs, globals;
  for (auto &G : M->globals()) {
    json::Object o;
    o["const"] = G.isConstant();
    o["tls"] = G.isThreadLocal();
    o["ty"] = tyStr(G.getValueType());
    o["dem"] = dem(G.getName());
    o["size"] = (int64_t)(G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 0);
    if (G.hasInitializer() && G.isConstant()) { Exp e; o["init"] = e.val(G.getInitializer()); }
    globals[G.getName().str()] = std::move(o);
  }
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    string d = dem(F.getName());
    json::Object fo;
    fo["dem"] = d; fo["name"] = strip(d); fo["proj"] = projFns.count(F.getName().str()) > 0;
    if (auto *sp = F.getSubprogram()) { fo["file"] = sp->getFile() ? sp->getFile()->getFilename().str() : ""; fo["line"] = (int64_t)sp->getLine(); }
    bool want = projFns.count(F.getName().str()) > 0 || F.getName().contains("vroot") ;
    if (F.getSubprogram() && F.getSubprogram()->getFile()) {
      string fn = F.getSubprogram()->getFile()->getFilename().str();
      if (StringRef(fn).ends_with("driver.cpp") || StringRef(fn).contains("/harness/")) want = true;
    }
    fo["body"] = want;
    json::Array args;
    for (auto &A : F.args()) args.push_back(json::Array{tyStr(A.getType()), A.getName().str(), A.hasByValAttr() || A.hasStructRetAttr()});
    fo["args"] = std::move(args);
    json::Array aty; bool sret = F.arg_size() && F.getArg(0)->hasStructRetAttr();
    if (sret) aty.push_back("");
    if (auto *sp = F.getSubprogram()) if (sp->getType()) { auto ta = sp->getType()->getTypeArray(); for (unsigned i = 1; i < ta.size(); i++) aty.push_back(elemStruct(ta[i], true)); }
    fo["aty"] = std::move(aty);
    fo["ret"] = tyStr(F.getReturnType());
    // direct callees of every function with a body, for the call graph
    if (!want) {
      json::Array cs; std::set<string> seen;
      for (auto &I : instructions(F)) if (auto *cb = dyn_cast<CallBase>(&I)) if (auto *cf = cb->getCalledFunction()) if (!cf->isIntrinsic() && seen.insert(cf->getName().str()).second) cs.push_back(json::Array{cf->getName().str(), strip(dem(cf->getName()))});
      fo["callees"] = std::move(cs);
      funcs[F.getName().str()] = std::move(fo);
      continue;
    }
    Exp e; int n = 0;
    for (auto &BB : F) e.ids[&BB] = n++;
    n = 0;
    for (auto &BB : F) for (auto &I : BB) e.ids[&I] = n++;
    json::Array blocks;
    for (auto &BB : F) {
      json::Array ins;
      for (auto &I : BB) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        json::Object o;
        o["id"] = e.ids[&I]; o["op"] = I.getOpcodeName(); o["ty"] = tyStr(I.getType());
        json::Value dl = dbg(I);
        if (dl.kind() != json::Value::Null) o["d"] = std::move(dl);
        if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
          o["a"] = json::Array{e.val(g->getPointerOperand())};
          o["path"] = e.gepPath(cast<GEPOperator>(g));
        } else if (auto *p = dyn_cast<PHINode>(&I)) {
          json::Array inc;
          for (unsigned i = 0; i < p->getNumIncomingValues(); i++) inc.push_back(json::Array{e.ids[p->getIncomingBlock(i)], e.val(p->getIncomingValue(i))});
          o["inc"] = std::move(inc);
        } else if (auto *cb = dyn_cast<CallBase>(&I)) {
          json::Array a; for (auto &x : cb->args()) a.push_back(e.val(x.get()));
          o["a"] = std::move(a);
          if (auto *cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) {
            o["fn"] = cf->getName().str(); o["dem"] = strip(dem(cf->getName()));
            if (cf->isIntrinsic()) o["intr"] = true;
            if (cf->doesNotThrow() || cb->doesNotThrow()) o["nothrow"] = true;
            if (cf->doesNotReturn() || cb->doesNotReturn()) o["noret"] = true;
          } else { o["ind"] = e.val(cb->getCalledOperand()); }
          if (auto *iv = dyn_cast<InvokeInst>(&I)) { o["to"] = e.ids[iv->getNormalDest()]; o["unw"] = e.ids[iv->getUnwindDest()]; }
        } else if (auto *br = dyn_cast<BranchInst>(&I)) {
          if (br->isConditional()) { o["a"] = json::Array{e.val(br->getCondition())}; o["t"] = json::Array{e.ids[br->getSuccessor(0)], e.ids[br->getSuccessor(1)]}; }
          else o["t"] = json::Array{e.ids[br->getSuccessor(0)]};
        } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
          o["a"] = json::Array{e.val(sw->getCondition())};
          json::Array cs; for (auto &c : sw->cases()) { SmallString<40> s; c.getCaseValue()->getValue().toStringSigned(s); cs.push_back(json::Array{s.str().str(), e.ids[c.getCaseSuccessor()]}); }
          o["cases"] = std::move(cs); o["def"] = e.ids[sw->getDefaultDest()];
        } else {
          json::Array a; for (auto &x : I.operands()) a.push_back(e.val(x.get()));
          o["a"] = std::move(a);
        }
        if (auto *c = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
        if (auto *c = dyn_cast<CmpInst>(&I)) o["oty"] = tyStr(c->getOperand(0)->getType());
        if (auto *c = dyn_cast<CastInst>(&I)) o["from"] = tyStr(c->getSrcTy());
        if (auto *al = dyn_cast<AllocaInst>(&I)) { o["aty"] = tyStr(al->getAllocatedType()); o["size"] = (int64_t)DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue(); o["nm"] = al->getName().str(); }
        if (auto *ld = dyn_cast<LoadInst>(&I)) { if (ld->isAtomic()) o["ord"] = ordStr(ld->getOrdering()); if (ld->isVolatile()) o["vol"] = true; }
        if (auto *st = dyn_cast<StoreInst>(&I)) { if (st->isAtomic()) o["ord"] = ordStr(st->getOrdering()); o["vty"] = tyStr(st->getValueOperand()->getType()); o["vsz"] = (int64_t)DL->getTypeStoreSize(st->getValueOperand()->getType()).getFixedValue(); }
        if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) { o["ord"] = ordStr(cx->getSuccessOrdering()); o["ford"] = ordStr(cx->getFailureOrdering()); o["weak"] = cx->isWeak(); }
        if (auto *fe = dyn_cast<FenceInst>(&I)) o["ord"] = ordStr(fe->getOrdering());
        if (auto *rm = dyn_cast<AtomicRMWInst>(&I)) { o["ord"] = ordStr(rm->getOrdering()); o["rmw"] = AtomicRMWInst::getOperationName(rm->getOperation()).str(); }
        if (auto *bo = dyn_cast<OverflowingBinaryOperator>(&I)) { if (bo->hasNoSignedWrap()) o["nsw"] = true; if (bo->hasNoUnsignedWrap()) o["nuw"] = true; }
        if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (auto i : ev->indices()) ix.push_back((int64_t)i); o["ix"] = std::move(ix); }
        if (auto *iv = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (auto i : iv->indices()) ix.push_back((int64_t)i); o["ix"] = std::move(ix); }
        ins.push_back(std::move(o));
      }
      blocks.push_back(std::move(ins));
    }
    fo["blocks"] = std::move(blocks);
    funcs[F.getName().str()] = std::move(fo);
  }
  json::Object top;
  top["locs"] = std::move(LocTab);
  top["functions"] = std::move(funcs); top["globals"] = std::move(globals); top["enums"] = std::move(enums);
  top["structs"] = std::move(dstructs); top["inlined"] = std::move(inlined); top["kept"] = std::move(kept);
  std::error_code ec;
  raw_fd_ostream os(pos[1], ec);
  if (ec) { errs() << ec.message() << "\n"; return 2; }
  os << json::Value(std::move(top)) << "\n";
  return 0;
}
