// irdump: turn an LLVM bitcode module into a JSON program description that the
// Python abstract interpreter (absint.py) loads.  All type sizes, field
// offsets and GEP scales are resolved here with the module's DataLayout.
#include <llvm/ADT/SmallString.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <map>
#include <string>
#include <vector>

using namespace llvm;
static const DataLayout *DL;
static raw_ostream *OS;
#define O (*OS)

static std::string esc(StringRef s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

static void ty(Type *t) {
    if (t->isIntegerTy()) { O << "[\"i\"," << t->getIntegerBitWidth() << "]"; return; }
    if (t->isDoubleTy()) { O << "[\"d\"]"; return; }
    if (t->isFloatTy()) { O << "[\"f\"]"; return; }
    if (t->isX86_FP80Ty()) { O << "[\"x\"]"; return; }
    if (t->isPointerTy()) { O << "[\"p\"]"; return; }
    if (t->isVoidTy()) { O << "[\"v\"]"; return; }
    if (auto *v = dyn_cast<FixedVectorType>(t)) {
        O << "[\"V\"," << v->getNumElements() << ",";
        ty(v->getElementType());
        O << "]";
        return;
    }
    if (auto *a = dyn_cast<ArrayType>(t)) {
        O << "[\"A\"," << a->getNumElements() << ",";
        ty(a->getElementType());
        O << "," << DL->getTypeAllocSize(a->getElementType()) << "]";
        return;
    }
    if (auto *s = dyn_cast<StructType>(t)) {
        if (s->isOpaque()) { O << "[\"?\"]"; return; }
        auto *sl = DL->getStructLayout(s);
        O << "[\"S\"," << sl->getSizeInBytes() << ",[";
        for (unsigned i = 0; i < s->getNumElements(); ++i) {
            if (i) O << ",";
            O << "[" << sl->getElementOffset(i) << ",";
            ty(s->getElementType(i));
            O << "]";
        }
        O << "]]";
        return;
    }
    O << "[\"?\"]";
}

static void cst(Constant const *c);

static std::map<Value const *, int> ids;

static void opnd(Value const *v) {
    if (auto *c = dyn_cast<Constant>(v)) { cst(c); return; }
    if (auto *bb = dyn_cast<BasicBlock>(v)) { O << "[\"b\"," << ids[bb] << "]"; return; }
    if (isa<MetadataAsValue>(v)) { O << "[\"m\"]"; return; }
    if (isa<InlineAsm>(v)) { O << "[\"asm\"]"; return; }
    O << ids[v];
}

static void cst(Constant const *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
        SmallString<40> s;
        ci->getValue().toString(s, 10, false);
        O << "[\"i\"," << s << "," << ci->getType()->getIntegerBitWidth() << "]";
        return;
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) {
        APFloat f = cf->getValueAPF();
        bool li;
        if (!cf->getType()->isDoubleTy()) f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
        SmallString<40> s;
        f.bitcastToAPInt().toString(s, 10, false);
        O << "[\"f\"," << s << "]";
        return;
    }
    if (isa<ConstantPointerNull>(c)) { O << "[\"n\"]"; return; }
    if (isa<UndefValue>(c)) { O << "[\"u\","; ty(c->getType()); O << "]"; return; }
    if (isa<ConstantAggregateZero>(c)) { O << "[\"z\","; ty(c->getType()); O << "]"; return; }
    if (auto *f = dyn_cast<GlobalValue>(c)) {
        if (auto *ga = dyn_cast<GlobalAlias>(c)) { cst(ga->getAliasee()); return; }
        O << "[\"g\"," << esc(f->getName()) << "]";
        return;
    }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        O << "[\"a\",[";
        for (unsigned i = 0; i < cd->getNumElements(); ++i) {
            if (i) O << ",";
            cst(cd->getElementAsConstant(i));
        }
        O << "]]";
        return;
    }
    if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
        O << "[\"a\",[";
        for (unsigned i = 0; i < ca->getNumOperands(); ++i) {
            if (i) O << ",";
            cst(ca->getOperand(i));
        }
        O << "]]";
        return;
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        if (ce->getOpcode() == Instruction::GetElementPtr) {
            APInt off(64, 0);
            if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) {
                O << "[\"ge\",";
                cst(cast<Constant>(ce->getOperand(0)));
                O << "," << off.getSExtValue() << "]";
                return;
            }
        }
        O << "[\"ce\"," << esc(ce->getOpcodeName()) << ",[";
        for (unsigned i = 0; i < ce->getNumOperands(); ++i) {
            if (i) O << ",";
            cst(ce->getOperand(i));
        }
        O << "],";
        ty(ce->getType());
        O << "]";
        return;
    }
    O << "[\"?\"]";
}

static std::map<std::string, int> files;
static std::vector<std::string> fileList;
static int fileId(std::string const &f) {
    auto it = files.find(f);
    if (it != files.end()) return it->second;
    int n = fileList.size();
    files[f] = n;
    fileList.push_back(f);
    return n;
}

static void loc(Instruction const &I) {
    if (DILocation *d = I.getDebugLoc()) {
        std::string f = d->getFilename().str();
        if (!f.empty() && f[0] != '/') f = d->getDirectory().str() + "/" + f;
        O << "[" << fileId(f) << "," << d->getLine() << "]";
    } else O << "0";
}

static void inst(Instruction const &I) {
    std::string opc = I.getOpcodeName();
    if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&I))
        if (ob->hasNoSignedWrap() && I.getType()->isIntegerTy()) opc += ".nsw";
    O << "[" << esc(opc) << "," << ids[&I] << ",";
    ty(I.getType());
    O << ",";
    loc(I);
    O << ",";
    auto ops = [&](unsigned n) {
        O << "[";
        for (unsigned i = 0; i < n; ++i) { if (i) O << ","; opnd(I.getOperand(i)); }
        O << "]";
    };
    if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        // base, constant offset, [(index operand, index width, scale)]
        O << "[";
        opnd(g->getPointerOperand());
        int64_t off = 0;
        std::string s;
        raw_string_ostream ss(s);
        raw_ostream *save = OS;
        bool first = true;
        for (auto gi = gep_type_begin(g), e = gep_type_end(g); gi != e; ++gi) {
            Value *idx = gi.getOperand();
            if (StructType *st = gi.getStructTypeOrNull()) {
                off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
            } else {
                int64_t sc = DL->getTypeAllocSize(gi.getIndexedType());
                if (auto *ci = dyn_cast<ConstantInt>(idx)) off += ci->getSExtValue() * sc;
                else {
                    OS = &ss;
                    if (!first) O << ",";
                    first = false;
                    O << "[";
                    opnd(idx);
                    O << "," << idx->getType()->getIntegerBitWidth() << "," << sc << "]";
                    OS = save;
                }
            }
        }
        ss.flush();
        O << "," << off << ",[" << s << "]," << (g->isInBounds() ? 1 : 0) << "]";
    } else if (auto *a = dyn_cast<AllocaInst>(&I)) {
        O << "[" << DL->getTypeAllocSize(a->getAllocatedType()) << ",";
        opnd(a->getArraySize());
        O << "," << a->getAlign().value() << "]";
    } else if (auto *l = dyn_cast<LoadInst>(&I)) {
        O << "[";
        opnd(l->getPointerOperand());
        O << "," << l->getAlign().value() << "," << DL->getTypeStoreSize(l->getType()) << "]";
    } else if (auto *s = dyn_cast<StoreInst>(&I)) {
        O << "[";
        opnd(s->getValueOperand());
        O << ",";
        opnd(s->getPointerOperand());
        O << ",";
        ty(s->getValueOperand()->getType());
        O << "," << s->getAlign().value() << "," << DL->getTypeStoreSize(s->getValueOperand()->getType()) << "]";
    } else if (auto *p = dyn_cast<PHINode>(&I)) {
        O << "[";
        for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) {
            if (i) O << ",";
            O << "[";
            opnd(p->getIncomingValue(i));
            O << "," << ids[p->getIncomingBlock(i)] << "]";
        }
        O << "]";
    } else if (auto *c = dyn_cast<CmpInst>(&I)) {
        O << "[" << esc(CmpInst::getPredicateName(c->getPredicate())) << ",";
        ty(c->getOperand(0)->getType());
        O << ",";
        opnd(c->getOperand(0));
        O << ",";
        opnd(c->getOperand(1));
        O << "]";
    } else if (auto *cb = dyn_cast<CallBase>(&I)) {
        O << "[";
        opnd(cb->getCalledOperand());
        O << ",[";
        for (unsigned i = 0; i < cb->arg_size(); ++i) {
            if (i) O << ",";
            opnd(cb->getArgOperand(i));
        }
        O << "],[";
        for (unsigned i = 0; i < cb->arg_size(); ++i) {
            if (i) O << ",";
            ty(cb->getArgOperand(i)->getType());
        }
        O << "],[";
        for (unsigned i = 0; i < cb->arg_size(); ++i) {
            if (i) O << ",";
            Type *bt = cb->getParamByValType(i);
            O << (bt ? (int64_t)DL->getTypeAllocSize(bt) : 0);
        }
        O << "]";
        if (auto *iv = dyn_cast<InvokeInst>(&I))
            O << "," << ids[iv->getNormalDest()] << "," << ids[iv->getUnwindDest()];
        O << "]";
    } else if (auto *b = dyn_cast<BranchInst>(&I)) {
        O << "[";
        if (b->isConditional()) {
            opnd(b->getCondition());
            O << "," << ids[b->getSuccessor(0)] << "," << ids[b->getSuccessor(1)];
        } else O << ids[b->getSuccessor(0)];
        O << "]";
    } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
        O << "[";
        opnd(sw->getCondition());
        O << "," << ids[sw->getDefaultDest()] << ",[";
        bool f = true;
        for (auto &cs : sw->cases()) {
            if (!f) O << ",";
            f = false;
            SmallString<40> s;
            cs.getCaseValue()->getValue().toString(s, 10, false);
            O << "[" << s << "," << ids[cs.getCaseSuccessor()] << "]";
        }
        O << "]," << sw->getCondition()->getType()->getIntegerBitWidth() << "]";
    } else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
        O << "[";
        opnd(ev->getAggregateOperand());
        O << ",[";
        bool f = true;
        for (unsigned i : ev->indices()) { if (!f) O << ","; f = false; O << i; }
        O << "]]";
    } else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
        O << "[";
        opnd(iv->getAggregateOperand());
        O << ",";
        opnd(iv->getInsertedValueOperand());
        O << ",[";
        bool f = true;
        for (unsigned i : iv->indices()) { if (!f) O << ","; f = false; O << i; }
        O << "]]";
    } else if (auto *sv = dyn_cast<ShuffleVectorInst>(&I)) {
        O << "[";
        opnd(sv->getOperand(0));
        O << ",";
        opnd(sv->getOperand(1));
        O << ",[";
        bool f = true;
        for (int i : sv->getShuffleMask()) { if (!f) O << ","; f = false; O << i; }
        O << "]," << cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements() << "]";
    } else if (auto *lp = dyn_cast<LandingPadInst>(&I)) {
        O << "[" << (lp->isCleanup() ? 1 : 0) << ",[";
        for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
            if (i) O << ",";
            O << "[" << (lp->isCatch(i) ? 1 : 0) << ",";
            cst(lp->getClause(i));
            O << "]";
        }
        O << "]]";
    } else if (auto *ca = dyn_cast<CastInst>(&I)) {
        O << "[";
        opnd(ca->getOperand(0));
        O << ",";
        ty(ca->getOperand(0)->getType());
        O << "]";
    } else if (auto *rm = dyn_cast<AtomicRMWInst>(&I)) {
        O << "[" << esc(AtomicRMWInst::getOperationName(rm->getOperation())) << ",";
        opnd(rm->getPointerOperand());
        O << ",";
        opnd(rm->getValOperand());
        O << "," << DL->getTypeStoreSize(rm->getType()) << "]";
    } else {
        ops(I.getNumOperands());
    }
    O << "]";
}

int main(int argc, char **argv) {
    LLVMContext ctx;
    SMDiagnostic err;
    auto m = parseIRFile(argv[1], err, ctx);
    if (!m) { err.print(argv[0], errs()); return 2; }
    DL = &m->getDataLayout();
    std::error_code ec;
    raw_fd_ostream out(argv[2], ec);
    OS = &out;
    O << "{\"globals\":[";
    bool first = true;
    for (auto &g : m->globals()) {
        if (g.getName().starts_with("llvm.")) {
            if (g.getName() != "llvm.global_ctors") continue;
        }
        if (!first) O << ",\n";
        first = false;
        O << "[" << esc(g.getName()) << "," << (g.isConstant() ? 1 : 0) << ","
          << (g.getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(g.getValueType()) : 0) << ","
          << (g.getAlign() ? (int64_t)g.getAlign()->value() : 0) << ",";
        ty(g.getValueType());
        O << ",";
        if (g.hasInitializer()) cst(g.getInitializer()); else O << "null";
        O << "," << (g.isThreadLocal() ? 1 : 0) << "," << (g.hasLocalLinkage() ? 1 : 0) << ",";
        SmallVector<DIGlobalVariableExpression *, 1> gv;
        g.getDebugInfo(gv);
        if (!gv.empty()) {
            auto *v = gv[0]->getVariable();
            O << "[" << fileId(v->getFilename().str()) << "," << v->getLine() << "," << esc(v->getName()) << "]";
        } else O << "null";
        O << "]";
    }
    O << "],\n\"aliases\":{";
    first = true;
    for (auto &a : m->aliases()) {
        if (!first) O << ",";
        first = false;
        O << esc(a.getName()) << ":";
        cst(a.getAliasee());
    }
    O << "},\n\"functions\":[";
    first = true;
    for (auto &f : *m) {
        if (!first) O << ",\n";
        first = false;
        ids.clear();
        int n = 0;
        for (auto &a : f.args()) ids[&a] = n++;
        int nb = 0;
        for (auto &b : f) {
            ids[&b] = nb++;
            for (auto &i : b) ids[&i] = n++;
        }
        O << "{\"name\":" << esc(f.getName()) << ",\"dem\":" << esc(demangle(f.getName().str()))
          << ",\"decl\":" << (f.isDeclaration() ? 1 : 0) << ",\"nargs\":" << f.arg_size() << ",\"nval\":" << n
          << ",\"nounwind\":" << (f.doesNotThrow() ? 1 : 0) << ",\"linkonce\":" << (f.hasLinkOnceLinkage() ? 1 : 0)
          << ",\"internal\":" << (f.hasLocalLinkage() ? 1 : 0);
        if (DISubprogram *sp = f.getSubprogram()) {
            std::string fn = sp->getFilename().str();
            if (!fn.empty() && fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn;
            O << ",\"file\":" << fileId(fn) << ",\"line\":" << sp->getLine();
        }
        O << ",\"args\":[";
        bool fa = true;
        for (auto &a : f.args()) {
            if (!fa) O << ",";
            fa = false;
            ty(a.getType());
        }
        O << "],\"aattr\":[";
        for (unsigned i = 0; i < f.arg_size(); ++i)
            O << (i ? "," : "") << (f.hasParamAttribute(i, Attribute::StructRet) ? 1 : f.hasParamAttribute(i, Attribute::ByVal) ? 2 : 0);
        O << "],\"ret\":";
        ty(f.getReturnType());
        O << ",\"blocks\":[";
        bool fb = true;
        for (auto &b : f) {
            if (!fb) O << ",\n ";
            fb = false;
            O << "[";
            bool fi = true;
            for (auto &i : b) {
                if (isa<DbgInfoIntrinsic>(i)) continue;
                if (!fi) O << ",\n  ";
                fi = false;
                inst(i);
            }
            O << "]";
        }
        O << "]}";
    }
    O << "],\n\"files\":[";
    first = true;
    for (auto &s : fileList) { if (!first) O << ","; first = false; O << esc(s); }
    O << "]}\n";
    return 0;
}
