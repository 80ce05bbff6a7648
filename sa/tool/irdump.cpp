// irdump: prepares LLVM IR (selective inlining, promotion to SSA) and dumps it as JSON for the analyses in /verif/sa.
//
//   irdump IN.bc OUT.json --root REGEX [--keep REGEX]... [--passes PIPELINE]
//
// Functions whose qualified name (without template arguments and parameters) matches a --keep regex stay opaque calls; every other defined function is inlined
// into its callers (so that extracting a helper, or folding one in, leaves the dumped function the same).
// Dumped are the functions that match --root, and the kept functions reachable from them: all with --dump-kept, otherwise those that match --also.
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/SCCIterator.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/Analysis/CallGraph.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/AlwaysInliner.h>
#include <llvm/Transforms/Utils/Cloning.h>
#include <map>
#include <regex>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static std::string dem(StringRef n) { return demangle(n.str()); }

struct Matcher {
    std::vector<std::regex> rx;
    void add(const std::string& s) { rx.emplace_back(s, std::regex::ECMAScript | std::regex::optimize); }
    bool operator()(const std::string& s) const {
        for (auto& r : rx) { if (std::regex_search(s, r)) { return true; } }
        return false;
    }
};

// A demangled name without template arguments and parameter list: "chdr::heap::pop".
static std::string base_name(const std::string& d) {
    std::string out; int depth = 0; size_t i = 0;
    std::string s = d;
    for (; i < s.size(); ++i) {
        char c = s[i];
        if (depth == 0 && s.compare(i, 8, "operator") == 0 && (i == 0 || !(isalnum(s[i-1]) || s[i-1] == '_'))) {
            size_t j = i + 8;
            std::string op = "operator";
            if (j < s.size() && !(isalnum(s[j]) || s[j] == '_')) {
                if (s.compare(j, 2, "()") == 0) { op += "()"; j += 2; }
                else { while (j < s.size() && s[j] != '(' && !isalnum(s[j])) {
                           if (s[j] == '<' && op.size() > 8 && (op.back() == '<' ? false : op != "operator")) { break; }
                           op += s[j++]; } 
                       if (op == "operator ") { while (j < s.size() && s[j] != '(') { op += s[j++]; } } }
                out += op; i = j - 1; continue;
            }
        }
        if (c == '<') { ++depth; continue; }
        if (c == '>') { --depth; continue; }
        if (depth > 0) { continue; }
        if (c == '(') {
            if (s.compare(i, 21, "(anonymous namespace)") == 0) { out += "(anon)"; i += 20; continue; }
            break;
        }
        out += c;
    }
    // drop a return type
    size_t sp = std::string::npos; 
    if (out.find("operator") == std::string::npos) { sp = out.rfind(' '); }
    else { size_t o = out.find("operator"); sp = out.rfind(' ', o); }
    if (sp != std::string::npos) { out = out.substr(sp + 1); }
    return out;
}

struct Dumper {
    const DataLayout& DL;
    std::map<const Value*, int> ids;
    std::set<const DIType*> wanted;
    explicit Dumper(const DataLayout& dl) : DL(dl) {}

    static std::string tyname(Type* t) { std::string s; raw_string_ostream o(s); t->print(o, false, true); return o.str(); }

    json::Value operand(const Value* v) {
        if (auto* ci = dyn_cast<ConstantInt>(v)) {
            SmallString<32> s; ci->getValue().toString(s, 10, !(ci->getBitWidth() == 1));
            return json::Array{"c", std::string(s.str()), static_cast<int64_t>(ci->getBitWidth())};
        }
        if (isa<ConstantPointerNull>(v)) { return json::Array{"null"}; }
        if (isa<PoisonValue>(v) || isa<UndefValue>(v)) { return json::Array{"undef"}; }
        if (auto* f = dyn_cast<ConstantFP>(v)) {
            SmallString<32> s; f->getValueAPF().toString(s);
            return json::Array{"f", std::string(s.str())};
        }
        if (auto* g = dyn_cast<GlobalValue>(v)) { return json::Array{"g", g->getName().str()}; }
        if (auto* a = dyn_cast<Argument>(v)) { return json::Array{"a", static_cast<int64_t>(a->getArgNo())}; }
        if (auto* ce = dyn_cast<ConstantExpr>(v)) {
            if (auto* gep = dyn_cast<GEPOperator>(ce)) {
                APInt off(64, 0);
                if (gep->accumulateConstantOffset(DL, off)) {
                    return json::Array{"gep", operand(gep->getPointerOperand()), off.getSExtValue()};
                }
            }
            std::string s; raw_string_ostream o(s); ce->print(o); return json::Array{"ce", o.str()};
        }
        if (isa<ConstantAggregateZero>(v)) { return json::Array{"zero"}; }
        if (auto* bb = dyn_cast<BasicBlock>(v)) { return json::Array{"b", ids.at(bb)}; }
        auto it = ids.find(v);
        if (it != ids.end()) { return it->second; }
        if (isa<MetadataAsValue>(v)) { return json::Array{"md"}; }
        std::string s; raw_string_ostream o(s); v->print(o); return json::Array{"?", o.str()};
    }

    static json::Value loc(const DebugLoc& dl) {
        if (!dl) { return nullptr; }
        json::Array chain;
        for (const DILocation* l = dl.get(); l; l = l->getInlinedAt()) {
            auto* sp = l->getScope()->getSubprogram();
            chain.push_back(json::Array{l->getFilename().str(), static_cast<int64_t>(l->getLine()), sp ? sp->getName().str() : ""});
        }
        return chain;
    }

    json::Object inst(const Instruction& I) {
        json::Object o;
        o["i"] = ids.at(&I);
        o["op"] = I.getOpcodeName();
        o["ty"] = tyname(I.getType());
        auto l = loc(I.getDebugLoc());
        if (l.kind() != json::Value::Null) { o["loc"] = std::move(l); }
        if (auto* c = dyn_cast<CallBase>(&I)) {
            const Value* cv = c->getCalledOperand()->stripPointerCastsAndAliases();
            if (auto* f = dyn_cast<Function>(cv)) {
                o["fn"] = f->getName().str();
                if (f->isIntrinsic()) { o["intr"] = true; }
            } else { o["callee"] = operand(cv); }
            json::Array a; for (auto& x : c->args()) { a.push_back(operand(x.get())); }
            o["ops"] = std::move(a);
            json::Array sr; for (unsigned k = 0; k < c->arg_size(); ++k) { if (c->paramHasAttr(k, Attribute::StructRet)) { sr.push_back(static_cast<int64_t>(k)); } }
            if (!sr.empty()) { o["sret"] = std::move(sr); }
            if (c->doesNotThrow()) { o["nounwind"] = true; }
            if (auto* iv = dyn_cast<InvokeInst>(c)) { o["normal"] = ids.at(iv->getNormalDest()); o["unwind"] = ids.at(iv->getUnwindDest()); }
            return o;
        }
        if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
            MapVector<Value*, APInt> var; APInt c(64, 0);
            o["base"] = operand(g->getPointerOperand());
            if (g->collectOffset(DL, 64, var, c)) {
                o["off"] = c.getSExtValue();
                json::Array vs; for (auto& [v, s] : var) { vs.push_back(json::Array{operand(v), s.getSExtValue()}); }
                o["var"] = std::move(vs);
            }
            return o;
        }
        if (auto* a = dyn_cast<AllocaInst>(&I)) {
            o["aty"] = tyname(a->getAllocatedType());
            if (auto sz = a->getAllocationSize(DL)) { o["size"] = static_cast<int64_t>(sz->getFixedValue()); }
            o["align"] = static_cast<int64_t>(a->getAlign().value());
            return o;
        }
        if (auto* c = dyn_cast<CmpInst>(&I)) { o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str(); }
        if (auto* p = dyn_cast<PHINode>(&I)) {
            json::Array in; for (unsigned k = 0; k < p->getNumIncomingValues(); ++k) { in.push_back(json::Array{ids.at(p->getIncomingBlock(k)), operand(p->getIncomingValue(k))}); }
            o["in"] = std::move(in); return o;
        }
        if (auto* s = dyn_cast<SwitchInst>(&I)) {
            json::Array cs; for (auto& c : s->cases()) { cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), ids.at(c.getCaseSuccessor())}); }
            o["cases"] = std::move(cs); o["default"] = ids.at(s->getDefaultDest()); o["ops"] = json::Array{operand(s->getCondition())}; return o;
        }
        if (auto* b = dyn_cast<BranchInst>(&I)) {
            json::Array t; for (unsigned k = 0; k < b->getNumSuccessors(); ++k) { t.push_back(ids.at(b->getSuccessor(k))); }
            o["succ"] = std::move(t);
            if (b->isConditional()) { o["ops"] = json::Array{operand(b->getCondition())}; }
            return o;
        }
        if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
            o["cleanup"] = lp->isCleanup();
            json::Array cl;
            for (unsigned k = 0; k < lp->getNumClauses(); ++k) { cl.push_back(json::Array{lp->isCatch(k) ? "catch" : "filter", operand(lp->getClause(k))}); }
            o["clauses"] = std::move(cl); return o;
        }
        if (auto* e = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (auto k : e->indices()) { ix.push_back(static_cast<int64_t>(k)); } o["idx"] = std::move(ix); }
        if (auto* e = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (auto k : e->indices()) { ix.push_back(static_cast<int64_t>(k)); } o["idx"] = std::move(ix); }
        json::Array a; for (auto& x : I.operands()) { a.push_back(operand(x.get())); }
        o["ops"] = std::move(a);
        if (auto* ld = dyn_cast<LoadInst>(&I)) { o["bytes"] = static_cast<int64_t>(DL.getTypeStoreSize(ld->getType())); if (ld->isAtomic()) { o["atomic"] = true; } }
        if (auto* st = dyn_cast<StoreInst>(&I)) { o["bytes"] = static_cast<int64_t>(DL.getTypeStoreSize(st->getValueOperand()->getType())); o["vty"] = tyname(st->getValueOperand()->getType()); if (st->isAtomic()) { o["atomic"] = true; } }
        if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&I)) { if (ob->hasNoSignedWrap()) { o["nsw"] = true; } if (ob->hasNoUnsignedWrap()) { o["nuw"] = true; } }
        return o;
    }

    static std::string ditype(const DIType* t) {
        std::string q;
        while (t) {
            if (auto* d = dyn_cast<DIDerivedType>(t)) {
                switch (d->getTag()) {
                    case dwarf::DW_TAG_pointer_type: q += "*"; break;
                    case dwarf::DW_TAG_reference_type: case dwarf::DW_TAG_rvalue_reference_type: q += "&"; break;
                    case dwarf::DW_TAG_const_type: q += "c"; break;
                    case dwarf::DW_TAG_typedef: break;
                    default: break;
                }
                t = d->getBaseType(); continue;
            }
            std::string n = t->getName().str();
            if (auto* c = dyn_cast<DICompositeType>(t)) {
                std::string sc; for (const DIScope* s = c->getScope(); s; s = s->getScope()) { if (!s->getName().empty() && !isa<DIFile>(s)) { sc = s->getName().str() + "::" + sc; } }
                n = sc + n;
            }
            return n + q;
        }
        return "void" + q;
    }

    json::Object function(const Function& F, const std::map<const Function*, bool>&) {
        ids.clear(); int n = 0;
        for (auto& B : F) { ids[&B] = n++; }
        for (auto& B : F) { for (auto& I : B) { ids[&I] = n++; } }
        json::Object o;
        o["name"] = F.getName().str();
        o["dem"] = dem(F.getName());
        o["base"] = base_name(dem(F.getName()));
        o["nounwind"] = F.doesNotThrow();
        o["ret"] = tyname(F.getReturnType());
        if (auto* sp = F.getSubprogram()) { o["file"] = sp->getFilename().str(); o["line"] = static_cast<int64_t>(sp->getLine()); o["sp"] = sp->getName().str(); }
        json::Array as; for (auto& a : F.args()) { json::Object x; x["ty"] = tyname(a.getType()); x["name"] = a.getName().str(); if (a.hasStructRetAttr()) { x["sret"] = true; } as.push_back(std::move(x)); }
        o["args"] = std::move(as);
        json::Array bs; json::Object vars;
        for (auto& B : F) {
            json::Array is;
            for (auto& I : B) {
                if (auto* d = dyn_cast<DbgVariableIntrinsic>(&I)) {
                    if (isa<DbgDeclareInst>(d)) {
                        const Value* v = d->getVariableLocationOp(0);
                        if (v && ids.count(v)) { vars[std::to_string(ids.at(v))] = json::Array{d->getVariable()->getName().str(), ditype(d->getVariable()->getType())}; }
                        else if (v && isa<Argument>(v)) { vars["a" + std::to_string(cast<Argument>(v)->getArgNo())] = json::Array{d->getVariable()->getName().str(), ditype(d->getVariable()->getType())}; }
                    }
                    else if (isa<DbgValueInst>(d) && d->getNumVariableLocationOps() == 1) {
                        const Value* v = d->getVariableLocationOp(0);
                        if (v && ids.count(v)) { std::string k = "v" + std::to_string(ids.at(v)); if (!vars.get(k)) { vars[k] = json::Array{d->getVariable()->getName().str(), ditype(d->getVariable()->getType())}; } }
                        else if (v && isa<Argument>(v)) { std::string k = "a" + std::to_string(cast<Argument>(v)->getArgNo()); if (!vars.get(k)) { vars[k] = json::Array{d->getVariable()->getName().str(), ditype(d->getVariable()->getType())}; } }
                    }
                    continue;
                }
                if (isa<DbgInfoIntrinsic>(&I)) { continue; }
                is.push_back(inst(I));
            }
            json::Object b; b["id"] = ids.at(&B); b["is"] = std::move(is);
            bs.push_back(std::move(b));
        }
        o["blocks"] = std::move(bs); o["vars"] = std::move(vars);
        return o;
    }
};

// ---- promises not to throw on the way of an allocation failure -------------------------------------------------------------------------------------------
// A function "raises" if an exception that stems from a refused allocation can leave it. Computed before inlining, over the whole module.
struct Raises {
    std::set<const Function*> up;
    static bool source(const std::string& b, StringRef raw) {
        return raw == "_Znwm" || raw == "_Znam" || raw == "_ZnwmSt11align_val_t" || raw == "_ZnamSt11align_val_t" || b == "std::pmr::memory_resource::allocate" ||
               b == "std::__throw_bad_alloc" || b == "std::__throw_bad_array_new_length" || b == "std::__throw_length_error";
    }
    static const Function* target(const CallBase& c) { return dyn_cast<Function>(c.getCalledOperand()->stripPointerCastsAndAliases()); }
    static bool noSource(const std::string& b, StringRef raw) {      // called with blocks that were allocated before
        return b == "std::pmr::memory_resource::deallocate" || raw.starts_with("__cxa_end_catch") || raw.starts_with("__cxa_begin_catch");
    }
    std::map<const Function*, std::string> base;
    bool raises(const CallBase& c) const {
        if (auto* f = target(c)) {
            if (f->getName() == "__cxa_throw") {
                auto* ti = c.arg_size() > 1 ? dyn_cast<GlobalValue>(c.getArgOperand(1)->stripPointerCasts()) : nullptr;
                return ti && ti->getName() == "_ZTISt9bad_alloc";
            }
            if (f->getName() == "__cxa_rethrow") {      // passes on what a raising call of the same function raised
                for (auto& I : instructions(*c.getFunction())) { auto* o = dyn_cast<CallBase>(&I); if (o && o != &c && target(*o) != f && raises(*o)) { return true; } }
                return false;
            }
            return up.count(f) != 0;
        }
        return isVirtualAllocate(c);
    }
    static bool isVirtualAllocate(const CallBase& c) {      // slot 2 of a memory_resource's table: do_allocate
        auto* l = dyn_cast<LoadInst>(c.getCalledOperand()); if (!l) { return false; }
        auto* g = dyn_cast<GetElementPtrInst>(l->getPointerOperand()); if (!g) { return false; }
        return c.getType()->isPointerTy() && c.arg_size() == 3 && g->getNumIndices() == 1 && isa<ConstantInt>(g->getOperand(1)) && cast<ConstantInt>(g->getOperand(1))->getZExtValue() == 2;
    }
    // what a landing pad reaches: resume, rethrow, terminate
    static void ends(const BasicBlock* b, bool& resume, bool& rethrow, bool& terminate, std::set<const BasicBlock*>& seen) {
        if (!seen.insert(b).second) { return; }
        for (auto& I : *b) {
            if (isa<ResumeInst>(I)) { resume = true; }
            if (auto* c = dyn_cast<CallBase>(&I)) { if (auto* f = target(*c)) {
                if (f->getName() == "__cxa_rethrow") { rethrow = true; }
                if (f->getName().contains("rethrow_exception")) { rethrow = true; }
                if (f->getName() == "__clang_call_terminate" || f->getName() == "_ZSt9terminatev") { terminate = true; } } }
        }
        for (auto* s : successors(b)) { ends(s, resume, rethrow, terminate, seen); }
    }
    // does the landing pad itself hand over to termination, before anything else is run?
    static bool dies(const BasicBlock* b) {
        bool terminates = false; std::set<const BasicBlock*> seen; std::vector<const BasicBlock*> w{b};
        while (!w.empty()) {
            b = w.back(); w.pop_back(); if (!seen.insert(b).second) { continue; }
            bool end = false;
            for (auto& I : *b) {
                if (isa<ResumeInst>(I) || isa<ReturnInst>(I)) { return false; }
                if (auto* c = dyn_cast<CallBase>(&I)) { if (auto* f = target(*c)) {
                    if (f->getName() == "__cxa_rethrow" || f->getName().contains("rethrow_exception") || f->getName() == "__cxa_throw") { return false; }
                    if (f->getName() == "__clang_call_terminate" || f->getName() == "_ZSt9terminatev") { terminates = end = true; } } }
            }
            if (!end) { for (auto* s : successors(b)) { w.push_back(s); } }
        }
        return terminates;
    }
    // is argument k of the call a local object that was only just default-constructed (or constructed from sizes and allocators), and so holds no element
    static bool freshArg(const CallBase& c, unsigned k) {
        const Value* v = c.getArgOperand(k)->stripPointerCasts(); auto* a = dyn_cast<AllocaInst>(v); if (!a) { return false; }
        bool made = false;
        for (auto* u : a->users()) {
            if (u == &c) { continue; }
            auto* b = dyn_cast<CallBase>(u); if (!b) { return false; }
            auto* f = target(*b); if (!f) { return false; }
            if (f->isIntrinsic()) { if (f->getName().starts_with("llvm.lifetime") || f->getName().starts_with("llvm.dbg")) { continue; } return false; }
            std::string d = dem(f->getName()); std::string q = base_name(d);
            auto p = q.rfind("::"); std::string m = p == std::string::npos ? q : q.substr(p + 2);
            if (!m.empty() && m[0] == '~') { continue; }
            std::string cls = p == std::string::npos ? "" : q.substr(0, p); auto p2 = cls.rfind("::"); if (p2 != std::string::npos) { cls = cls.substr(p2 + 2); }
            std::string par = d.substr(d.rfind('('));
            if (m == cls && b->getArgOperand(0)->stripPointerCasts() == a && par.find("initializer_list") == std::string::npos && par.find("&&") == std::string::npos && par.find(cls + "<") == std::string::npos) { made = true; continue; }
            return false;
        }
        return made;
    }
    std::map<const Function*, std::vector<const CallBase*>> callers;
    // a move assignment that only ever receives fresh, empty objects moves no elements
    bool onlyFresh(const Function& F) {
        std::string b = base[&F]; if (b.size() < 9 || b.substr(b.size() - 9) != "operator=" || F.arg_size() != 2) { return false; }
        std::string d = dem(F.getName()); if (d.find("&&)") == std::string::npos) { return false; }
        auto it = callers.find(&F); if (it == callers.end()) { return false; }
        for (auto* c : it->second) { if (!freshArg(*c, 1)) { return false; } }
        return true;
    }
    json::Array run(const Module& M, const Matcher& root) {
        for (auto& F : M) { base[&F] = base_name(dem(F.getName())); if (source(base[&F], F.getName())) { up.insert(&F); } }
        bool grew = true;
        while (grew) {
            grew = false;
            for (auto& F : M) {
                if (F.isDeclaration() || up.count(&F) || noSource(base[&F], F.getName())) { continue; }
                bool y = false;
                for (auto& I : instructions(F)) {
                    auto* c = dyn_cast<CallBase>(&I); if (!c || !raises(*c)) { continue; }
                    if (!isa<InvokeInst>(c)) { y = !F.doesNotThrow(); }
                    else if (!dies(cast<InvokeInst>(c)->getUnwindDest())) {
                        bool rs = false, rt = false, te = false; std::set<const BasicBlock*> seen; ends(cast<InvokeInst>(c)->getUnwindDest(), rs, rt, te, seen);
                        y = rs || rt;
                    }
                    if (y) { break; }
                }
                if (y) { up.insert(&F); grew = true; }
            }
        }
        // functions a root can run
        std::set<const Function*> live; std::vector<const Function*> w;
        for (auto& F : M) { if (!F.isDeclaration() && root(base[&F])) { w.push_back(&F); } }
        while (!w.empty()) {
            auto* F = w.back(); w.pop_back(); if (!live.insert(F).second) { continue; }
            for (auto& I : instructions(*F)) { if (auto* c = dyn_cast<CallBase>(&I)) { if (auto* g = target(*c)) { if (!g->isDeclaration()) { w.push_back(g); } callers[g].push_back(c); } } }
        }
        json::Array out;
        for (auto* F : live) {
            json::Object o; o["fn"] = dem(F->getName()); o["base"] = base[F]; o["raises"] = up.count(F) != 0; o["nounwind"] = F->doesNotThrow();
            if (auto* sp = F->getSubprogram()) { o["file"] = sp->getFilename().str(); o["line"] = static_cast<int64_t>(sp->getLine()); }
            json::Array sites; int64_t n = 0;
            for (auto& I : instructions(*F)) {
                auto* c = dyn_cast<CallBase>(&I); if (!c || !raises(*c)) { continue; }
                ++n;
                bool die = isa<InvokeInst>(c) ? dies(cast<InvokeInst>(c)->getUnwindDest()) : F->doesNotThrow();
                if (die) { auto* g = target(*c); json::Object x; x["callee"] = g ? dem(g->getName()) : std::string("memory_resource::do_allocate"); x["cbase"] = g ? base[g] : std::string("std::pmr::memory_resource::do_allocate"); if (auto l = D(I)) { x["loc"] = std::move(*l); } if (onlyFresh(*F)) { x["fresh"] = true; } sites.push_back(std::move(x)); }
            }
            o["calls"] = n; o["dies"] = std::move(sites); out.push_back(std::move(o));
        }
        return out;
    }
    static std::optional<json::Value> D(const Instruction& I) { auto l = Dumper::loc(I.getDebugLoc()); if (l.kind() == json::Value::Null) { return std::nullopt; } return l; }
};

// The integer leaves of a constant, in order; false when it holds anything else.
static bool flat(const Constant* c, json::Array& out) {
    if (out.size() > 4096) { return false; }
    if (auto* i = dyn_cast<ConstantInt>(c)) { out.push_back(i->getSExtValue()); return i->getBitWidth() <= 64; }
    auto* t = c->getType();
    if (!t->isAggregateType()) { return false; }
    const uint64_t n = t->isArrayTy() ? t->getArrayNumElements() : t->getStructNumElements();
    for (uint64_t k = 0; k < n; ++k) { auto* e = c->getAggregateElement(static_cast<unsigned>(k)); if (!e || !flat(e, out)) { return false; } }
    return true;
}

int main(int argc, char** argv) {
    if (argc < 3) { errs() << "usage: irdump IN OUT --root RX ...\n"; return 2; }
    Matcher root, keep, never, neverFull, also; bool dumpKept = false, raisesOnly = false; std::string passes = "function(sroa,early-cse<memssa>,instsimplify,jump-threading,instsimplify,adce)";
    for (int i = 3; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--dump-kept") { dumpKept = true; continue; }
        if (a == "--raises") { raisesOnly = true; continue; }
        if (i + 1 >= argc) { errs() << "missing value for " << a << "\n"; return 2; }
        std::string v = argv[++i];
        if (a == "--root") { root.add(v); } else if (a == "--keep") { keep.add(v); } else if (a == "--inline") { if (v.rfind("full:", 0) == 0) { neverFull.add(v.substr(5)); } else { never.add(v); } } else if (a == "--also") { also.add(v); } else if (a == "--passes") { passes = v; }
        else { errs() << "bad option " << a << "\n"; return 2; }
    }
    { const char* av[] = { "irdump", "-unroll-threshold=1000000", "-unroll-max-iteration-count-to-analyze=1000", "-unroll-full-max-count=1000" }; cl::ParseCommandLineOptions(4, av); }
    LLVMContext C; SMDiagnostic E;
    auto M = parseIRFile(argv[1], E, C);
    if (!M) { E.print("irdump", errs()); return 2; }

    if (raisesOnly) {
        Raises R; std::error_code ec; raw_fd_ostream os(argv[2], ec); if (ec) { errs() << ec.message() << "\n"; return 2; }
        os << json::Value(R.run(*M, root)); return 0;
    }
    // Which functions stay calls? --inline overrides --keep. Members of a recursive cycle stay calls too.
    std::map<const Function*, bool> kept;
    std::map<const Function*, std::string> bn;
    for (auto& F : *M) {
        std::string d = dem(F.getName()); bn[&F] = d;
        std::string b = base_name(d);
        kept[&F] = F.isDeclaration() || (keep(b) && !never(b) && !neverFull(d)) || root(b);
        F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::AlwaysInline);
    }
    {
        CallGraph CG(*M);
        for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it) {
            if (it.hasCycle()) { for (auto* n : *it) { if (auto* f = n->getFunction()) { kept[f] = true; } } }
        }
    }
    for (auto& F : *M) {
        if (F.isDeclaration()) { continue; }
        if (kept[&F]) { F.addFnAttr(Attribute::NoInline); }
        else { F.addFnAttr(Attribute::AlwaysInline); }
    }
    for (auto& F : *M) { for (auto& I : instructions(F)) { if (I.isTerminator()) { I.setMetadata(LLVMContext::MD_loop, nullptr); } if (auto* c = dyn_cast<CallBase>(&I)) { c->removeFnAttr(Attribute::NoInline); c->removeFnAttr(Attribute::AlwaysInline); } } }

    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    MPM.addPass(AlwaysInlinerPass(/*InsertLifetime=*/false));
    if (auto err = PB.parsePassPipeline(MPM, passes)) { errs() << toString(std::move(err)) << "\n"; return 2; }
    MPM.run(*M, MAM);

    json::Object out; json::Object fns; json::Object names;
    Dumper D(M->getDataLayout());
    std::set<const Function*> done; std::vector<const Function*> work;
    for (auto& F : *M) { if (!F.isDeclaration() && root(base_name(dem(F.getName())))) { work.push_back(&F); } }
    while (!work.empty()) {
        const Function* F = work.back(); work.pop_back();
        if (!done.insert(F).second) { continue; }
        fns[F->getName()] = D.function(*F, kept);
        for (auto& I : instructions(*F)) {
            if (auto* c = dyn_cast<CallBase>(&I)) {
                if (auto* g = dyn_cast<Function>(c->getCalledOperand()->stripPointerCastsAndAliases())) {
                    if (!names.get(g->getName())) {
                        std::string d = dem(g->getName());
                        json::Object x; x["dem"] = d; x["base"] = base_name(d); x["decl"] = g->isDeclaration(); x["nounwind"] = g->doesNotThrow(); names[g->getName()] = std::move(x);
                    }
                    if ((dumpKept || also(base_name(dem(g->getName())))) && !g->isDeclaration()) { work.push_back(g); }
                }
            }
        }
    }
    // Struct layouts from the debug information: name -> [[member, byte offset, byte size, type]...]
    json::Object types;
    DebugInfoFinder Fi; Fi.processModule(*M);
    for (auto* t : Fi.types()) {
        auto* c = dyn_cast<DICompositeType>(t);
        if (!c || (c->getTag() != dwarf::DW_TAG_structure_type && c->getTag() != dwarf::DW_TAG_class_type) || c->isForwardDecl()) { continue; }
        std::string n = Dumper::ditype(c);
        if (types.get(n)) { continue; }
        if (n.compare(0, 6, "chdr::") != 0 && n.compare(0, 4, "sa::") != 0) { continue; }
        json::Array ms;
        for (auto* e : c->getElements()) {
            if (auto* d = dyn_cast_or_null<DIDerivedType>(e)) {
                if (d->isStaticMember()) { continue; }
                if (d->getTag() == dwarf::DW_TAG_member) { ms.push_back(json::Array{d->getName().str(), static_cast<int64_t>(d->getOffsetInBits() / 8), static_cast<int64_t>(d->getSizeInBits() / 8), Dumper::ditype(d->getBaseType())}); }
                else if (d->getTag() == dwarf::DW_TAG_inheritance) { ms.push_back(json::Array{"<base>", static_cast<int64_t>(d->getOffsetInBits() / 8), 0, Dumper::ditype(d->getBaseType())}); }
            }
        }
        json::Object x; x["members"] = std::move(ms); x["size"] = static_cast<int64_t>(c->getSizeInBits() / 8); x["align"] = static_cast<int64_t>(c->getAlignInBits() / 8);
        types[n] = std::move(x);
    }
    out["functions"] = std::move(fns); out["names"] = std::move(names); out["types"] = std::move(types);
    // Globals (for the effect analyses).
    json::Array gl;
    for (auto& G : M->globals()) {
        SmallVector<DIGlobalVariableExpression*, 1> dg; G.getDebugInfo(dg);
        json::Object x; x["name"] = G.getName().str(); x["dem"] = dem(G.getName()); x["const"] = G.isConstant(); x["tls"] = G.isThreadLocal(); x["decl"] = G.isDeclaration();
        if (G.hasInitializer() && G.getValueType()->isAggregateType()) { json::Array in; if (flat(G.getInitializer(), in) && in.size() <= 4096) { x["init"] = std::move(in); x["size"] = static_cast<int64_t>(M->getDataLayout().getTypeAllocSize(G.getValueType())); } }
        if (!dg.empty()) { x["file"] = dg[0]->getVariable()->getFilename().str(); x["line"] = static_cast<int64_t>(dg[0]->getVariable()->getLine()); }
        gl.push_back(std::move(x));
    }
    out["globals"] = std::move(gl);
    std::error_code ec; raw_fd_ostream os(argv[2], ec);
    if (ec) { errs() << ec.message() << "\n"; return 2; }
    os << json::Value(std::move(out));
    return 0;
}
