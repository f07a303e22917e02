// irflow - value-flow analysis of LLVM IR by abstract interpretation.
//
//   irflow [--seed N] [--json OUT] module.bc
//
// Every function of the module whose name starts with "G_" (generic position), "X_" (exact
// degenerate point) or "Z_" (degenerate neighbourhood) is an analysis entry.  Integers and
// addresses of the entry are compile-time constants of the driver and are propagated exactly;
// floating-point values are abstract (see domain.hpp).  The obligations of an entry are calls of
// the wg_* intrinsics, which have no body: their meaning is given here.
#include "domain.hpp"

#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/DenseSet.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Transforms/Utils/PromoteMemToReg.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <deque>
#include <memory>
#include <set>
#include <sstream>
#include <cstdio>

using namespace llvm;
using std::string;

// ------------------------------------------------------------------------------------- values
struct V {
    enum K : uint8_t { None, Int, Fp, Agg, Undef } k = None;
    u64 i = 0;
    fid f = 0;
    std::vector<V> *a;
    static std::deque<std::vector<V>> arena;
    static std::vector<V> *mkAgg(size_t n = 0) {
        arena.emplace_back(n);
        return &arena.back();
    }
    V() : a(nullptr) {}
    static V I(u64 x) {
        V v;
        v.k = Int;
        v.i = x;
        return v;
    }
    static V F(fid x) {
        V v;
        v.k = Fp;
        v.f = x;
        return v;
    }
    static V U() {
        V v;
        v.k = Undef;
        return v;
    }
};

std::deque<std::vector<V>> V::arena;

struct Byte {
    uint8_t kind = 0;  // 0 undef 1 int 2 fp fragment
    uint8_t b = 0;
    uint8_t idx = 0, sz = 0;
    fid f = 0;
};
struct Obj {
    u64 base, size;
    enum Kind : uint8_t { Stack, Heap, Global, Const } kind;
    uint8_t state;  // 1 alive 0 dead 2 freed
    string name;
    const Instruction *org = nullptr;
    const Instruction *death = nullptr;
    bool prot = false;
    bool internal = false;  // guard variables and the like
    Byte *mem = nullptr;    // null once the frame that held it is gone
};

// bump storage; stack objects are released in LIFO order
struct Arena {
    std::vector<std::pair<std::unique_ptr<Byte[]>, size_t>> chunks;
    size_t ci = 0, off = 0;
    Byte *get(size_t n) {
        n = std::max<size_t>(n, 1);
        while (ci < chunks.size() && off + n > chunks[ci].second) ++ci, off = 0;
        if (ci == chunks.size()) {
            size_t c = std::max<size_t>(n, 1 << 16);
            chunks.emplace_back(std::unique_ptr<Byte[]>(new Byte[c]), c);
        }
        Byte *r = chunks[ci].first.get() + off;
        off += n;
        std::fill(r, r + n, Byte());
        return r;
    }
};

struct Event {
    string kind, what, where, stack;
};
struct Ob {  // obligation outcome
    string kind, label, status, detail, where;
};

// A second look at an entry with one operand made special (see main.hpp)
struct Variant {
    enum Kind { None, Special, Near, Pin } kind = None;
    int gen = -1, sub = 0, comp = -1;  // which operand, which degeneracy, which component (Pin)
    double c = 0;
};
struct NearRec {
    string label;
    bool diff = false;  // the values are differences that must vanish
    std::vector<SeriesDomain::El> vals;
    std::vector<string> org;
    string where;
};

static string locStr(const Instruction *I) {
    if (!I) return "?";
    const DILocation *d = I->getDebugLoc();
    if (!d) {
        if (auto *sp = I->getFunction()->getSubprogram())
            return (sp->getFilename() + ":" + Twine(sp->getLine())).str();
        return "?";
    }
    string f = d->getFilename().str();
    if (!f.empty() && f[0] != '/' && !d->getDirectory().empty()) f = d->getDirectory().str() + "/" + f;
    return f + ":" + std::to_string(d->getLine());
}

struct Abort {
    string why;
};

struct Engine {
    Module &M;
    const DataLayout &DL;
    std::deque<Obj> objs;            // in order of address
    std::vector<Obj *> pages;        // objects are at least 64 bytes apart: one per 64-byte page at most
    Arena stackMem, heapMem;
    void clearMem() {
        objs.clear();
        pages.clear();
        stackMem.ci = stackMem.off = heapMem.ci = heapMem.off = 0;
        next = 0x10000;
    }
    u64 next = 0x10000;
    DenseMap<const GlobalValue *, u64> gaddr;
    std::map<u64, const Function *> faddr;
    Domain *D = nullptr;
    DualDomain *dual = nullptr;
    SeriesDomain *ser = nullptr;
    Oracle oracle;
    std::vector<const Instruction *> orgs;  // origin per fid
    std::vector<std::vector<const Instruction *>> orgStk;
    std::vector<const Instruction *> cstack;
    const Instruction *cur = nullptr;
    std::vector<Event> events;
    std::vector<Ob> obs;
    std::vector<NearRec> nears;
    Variant var;
    struct Gen {
        string type;
        int subs, nears;
    };
    std::vector<Gen> gens;                              // operands created so far in this run
    std::unordered_map<u64, std::pair<int, int>> leafs;  // value number -> operand, component
    std::set<std::tuple<int, int, double>> pinReq;       // leaf compared for equality with a constant
    bool tie = false;                                    // a guard was evaluated exactly on its boundary
    u64 steps = 0;
    static constexpr u64 maxSteps = 60000000;
    DenseSet<const Function *> fns;  // analysed functions
    DenseSet<const DILocation *> locs;
    int noalloc = 0;
    string noallocLabel, pureLabel;
    bool pure = false, atomicOp = false;
    int inGuard = 0;  // inside the thread-safe initialisation of a function-local static
    u64 allocCount = 0;
    int allocTrack = 0;
    std::vector<std::pair<u64, u64>> prots;
    string mode;
    u64 seed = 1;

    Engine(Module &m) : M(m), DL(m.getDataLayout()) {}

    // ---------------------------------------------------------------- memory
    Obj *alloc(u64 size, Obj::Kind k, string name, u64 align = 16) {
        if (size > (1u << 28)) throw Undecided{"allocation of " + std::to_string(size) + " bytes"};
        next = (next + align - 1) / align * align;
        objs.emplace_back();
        Obj *o = &objs.back();
        o->base = next;
        o->size = size;
        o->kind = k;
        o->state = 1;
        o->name = std::move(name);
        o->org = cur;
        o->mem = (k == Obj::Stack ? stackMem : heapMem).get(size);
        next += size + 64;
        size_t p0 = (o->base - 0x10000) >> 6, p1 = (o->base + std::max<u64>(size, 1) - 1 - 0x10000) >> 6;
        if (pages.size() <= p1) pages.resize(p1 + 1, nullptr);
        for (size_t p = p0; p <= p1; ++p) pages[p] = o;
        return o;
    }
    Obj *find(u64 a) {
        if (a < 0x10000) return nullptr;
        size_t p = (a - 0x10000) >> 6;
        if (p >= pages.size()) return nullptr;
        Obj *o = pages[p];
        return o && a >= o->base && (a < o->base + o->size || (a == o->base && o->size == 0)) ? o : nullptr;
    }
    string stackStr() {
        string r;
        int n = 0;
        for (auto it = cstack.rbegin(); it != cstack.rend() && n < 60; ++it) {
            string l = locStr(*it);
            if (l.find("/repo/include") == string::npos && l.find("/drivers/") == string::npos &&
                l.find("gen_") == string::npos)
                continue;
            if (!r.empty()) r += " <- ";
            r += l;
            ++n;
        }
        return r;
    }
    string here() {
        string l = locStr(cur);
        if (l.find("/repo/include") != string::npos) return l;
        for (auto it = cstack.rbegin(); it != cstack.rend(); ++it) {
            string m = locStr(*it);
            if (m.find("/repo/include") != string::npos) return m;
        }
        return l;
    }
    string nameOf(const Obj *o) {
        if (!o->name.empty()) return o->name;
        if (auto *A = dyn_cast_or_null<AllocaInst>(o->org)) {
            string nm = A->hasName() ? "local '" + A->getName().str() + "'" : "temporary";
            return nm + " of " + demangle(A->getFunction()->getName().str()).substr(0, 160);
        }
        return "object";
    }
    void event(const string &k, const string &w) {
        if (events.size() < 40) events.push_back({k, w, here(), stackStr()});
    }
    Obj *access(u64 a, u64 n, bool write) {
        Obj *o = find(a);
        if (!o) {
            event("memory", a < 0x1000 ? "null dereference" : "access outside any object");
            throw Abort{a < 0x1000 ? "null dereference" : "access outside any object"};
        }
        if (a + n > o->base + o->size) {
            event("memory", "access past the end of " + nameOf(o));
            throw Abort{"out of bounds"};
        }
        if (o->state != 1) {
            string dl = o->death ? " (ended at " + locStr(o->death) + ")" : "";
            event("lifetime", string(write ? "write to " : "read of ") + nameOf(o) +
                                (o->state == 2 ? " after it was freed" : " after its lifetime ended") +
                                ", created at " + locStr(o->org) + dl);
        }
        if (write) {
            if (o->kind == Obj::Const) event("memory", "write to constant " + nameOf(o));
            if (pure && !atomicOp && !inGuard) {
                if (o->prot) event("purity", "write to " + nameOf(o) + ", which the expression holds, while evaluating " + pureLabel);
                if (o->kind == Obj::Global && !o->internal)
                    event("purity", "write to global state " + o->name + " while evaluating " + pureLabel);
                for (auto &p : prots)
                    if (a < p.first + p.second && p.first < a + n)
                        event("purity", "write to an operand while evaluating " + pureLabel);
            }
        }
        return o;
    }
    void storeBytes(u64 a, const Byte *b, u64 n) {
        if (!n) return;
        Obj *o = access(a, n, true);
        if (o->mem) memcpy(o->mem + (a - o->base), b, n * sizeof(Byte));
    }
    void storeFp(u64 a, fid f, unsigned sz) {
        Byte b[16];
        for (unsigned i = 0; i < sz; ++i) {
            b[i].kind = 2;
            b[i].idx = i;
            b[i].sz = sz;
            b[i].f = f;
        }
        storeBytes(a, b, sz);
    }
    void storeInt(u64 a, u64 v, unsigned sz) {
        Byte b[16];
        for (unsigned i = 0; i < sz; ++i) {
            b[i].kind = 1;
            b[i].b = i < 8 ? (v >> (8 * i)) & 255 : 0;
        }
        storeBytes(a, b, sz);
    }
    void store(u64 a, const V &v, Type *T) {
        if (auto *st = dyn_cast<StructType>(T)) {
            auto *sl = DL.getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); ++i)
                store(a + sl->getElementOffset(i), v.k == V::Agg ? (*v.a)[i] : V::U(), st->getElementType(i));
            return;
        }
        if (T->isArrayTy() || T->isVectorTy()) {
            Type *E = T->isArrayTy() ? T->getArrayElementType() : cast<FixedVectorType>(T)->getElementType();
            u64 n = T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
            u64 es = DL.getTypeAllocSize(E);
            for (u64 i = 0; i < n; ++i) store(a + i * es, v.k == V::Agg ? (*v.a)[i] : V::U(), E);
            return;
        }
        u64 sz = DL.getTypeStoreSize(T);
        if (sz > 16) throw Undecided{"wide store"};
        switch (v.k) {
            case V::Int: storeInt(a, v.i, sz); break;
            case V::Fp: storeFp(a, v.f, sz); break;
            default: {
                Byte b[16];
                storeBytes(a, b, sz);
            }
        }
    }
    V load(u64 a, Type *T) {
        if (auto *st = dyn_cast<StructType>(T)) {
            auto *sl = DL.getStructLayout(st);
            V r;
            r.k = V::Agg;
            r.a = V::mkAgg();
            for (unsigned i = 0; i < st->getNumElements(); ++i)
                r.a->push_back(load(a + sl->getElementOffset(i), st->getElementType(i)));
            return r;
        }
        if (T->isArrayTy() || T->isVectorTy()) {
            Type *E = T->isArrayTy() ? T->getArrayElementType() : cast<FixedVectorType>(T)->getElementType();
            u64 n = T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
            u64 es = DL.getTypeAllocSize(E);
            V r;
            r.k = V::Agg;
            r.a = V::mkAgg();
            for (u64 i = 0; i < n; ++i) r.a->push_back(load(a + i * es, E));
            return r;
        }
        u64 sz = DL.getTypeStoreSize(T);
        Obj *o = access(a, sz, false);
        if (o->state != 1 && T->isFloatingPointTy()) return V::F(D->undef());
        if (!o->mem) return V::U();
        const Byte *m = o->mem + (a - o->base);
        bool allInt = true, allFp = m[0].kind == 2;
        for (u64 i = 0; i < sz; ++i) {
            if (m[i].kind != 1) allInt = false;
            if (m[i].kind != 2 || m[i].f != m[0].f || m[i].idx != i || m[i].sz != sz) allFp = false;
        }
        if (allFp) {
            if (T->isIntegerTy()) {
                double c;
                if (dual && dual->el[m[0].f].isc && sz == 8) {
                    c = dual->el[m[0].f].c;
                    u64 bits;
                    memcpy(&bits, &c, 8);
                    (void)bits;
                }
            }
            return V::F(m[0].f);
        }
        if (allInt) {
            u64 v = 0;
            for (u64 i = 0; i < sz && i < 8; ++i) v |= (u64)m[i].b << (8 * i);
            if (T->isDoubleTy()) {
                double d;
                memcpy(&d, &v, 8);
                return V::F(D->constant(d));
            }
            if (T->isFloatTy()) {
                float d;
                uint32_t w = (uint32_t)v;
                memcpy(&d, &w, 4);
                return V::F(D->constant(d));
            }
            if (T->isIntegerTy() && T->getIntegerBitWidth() < 64)
                v &= (1ull << T->getIntegerBitWidth()) - 1;
            return V::I(v);
        }
        if (T->isFloatingPointTy()) return V::F(D->undef());
        return V::U();
    }
    void copy(u64 d, u64 s, u64 n) {
        if (!n) return;
        Obj *so = access(s, n, false);
        std::vector<Byte> tmp(n);
        if (so->state == 1 && so->mem) memcpy(tmp.data(), so->mem + (s - so->base), n * sizeof(Byte));
        storeBytes(d, tmp.data(), n);
    }

    // ---------------------------------------------------------------- constants
    u64 addrOf(const GlobalValue *g) {
        auto it = gaddr.find(g);
        if (it != gaddr.end()) return it->second;
        if (auto *F = dyn_cast<Function>(g)) {
            u64 a = next = (next + 15) / 16 * 16;
            next += 32;
            gaddr[g] = a;
            faddr[a] = F;
            return a;
        }
        if (auto *A = dyn_cast<GlobalAlias>(g)) {
            u64 a = constInt(A->getAliasee());
            gaddr[g] = a;
            return a;
        }
        auto *G = cast<GlobalVariable>(g);
        u64 sz = DL.getTypeAllocSize(G->getValueType());
        Obj *o = alloc(std::max<u64>(sz, 1), G->isConstant() ? Obj::Const : Obj::Global,
                       "global " + demangle(G->getName().str()),
                       std::max<u64>(16, G->getAlign().valueOrOne().value()));
        o->internal = G->getName().starts_with("_ZGV");
        u64 a = o->base;
        gaddr[g] = a;
        auto k = o->kind;
        o->kind = Obj::Stack;  // its initialisation is no write to it
        bool sp = pure;
        pure = false;
        if (G->hasInitializer()) {
            initConst(a, G->getInitializer());
        } else {
            for (u64 i = 0; i < sz; ++i) storeInt(a + i, 0, 1);
        }
        pure = sp;
        o->kind = k;
        return a;
    }
    void initConst(u64 a, const Constant *C) {
        Type *T = C->getType();
        u64 sz = DL.getTypeAllocSize(T);
        if (isa<UndefValue>(C)) return;
        if (C->isNullValue()) {
            for (u64 i = 0; i < sz; ++i) storeInt(a + i, 0, 1);
            return;
        }
        if (auto *cs = dyn_cast<ConstantStruct>(C)) {
            auto *sl = DL.getStructLayout(cs->getType());
            for (unsigned i = 0; i < cs->getNumOperands(); ++i)
                initConst(a + sl->getElementOffset(i), cs->getOperand(i));
            return;
        }
        if (auto *cd = dyn_cast<ConstantDataSequential>(C)) {
            u64 es = cd->getElementByteSize();
            for (unsigned i = 0; i < cd->getNumElements(); ++i)
                store(a + i * es, evalConst(cd->getElementAsConstant(i)), cd->getElementType());
            return;
        }
        if (isa<ConstantArray>(C)) {
            u64 es = DL.getTypeAllocSize(T->getArrayElementType());
            for (unsigned i = 0; i < C->getNumOperands(); ++i)
                initConst(a + i * es, cast<Constant>(C->getOperand(i)));
            return;
        }
        store(a, evalConst(C), T);
    }
    u64 constInt(const Constant *C) {
        V v = evalConst(C);
        if (v.k != V::Int) throw Undecided{"constant address"};
        return v.i;
    }
    V evalConst(const Constant *C) {
        if (auto *ci = dyn_cast<ConstantInt>(C)) {
            if (ci->getBitWidth() > 64) return V::I(ci->getValue().getLoBits(64).trunc(64).getZExtValue());
            return V::I(ci->getZExtValue());
        }
        if (auto *cf = dyn_cast<ConstantFP>(C)) {
            double d;
            if (cf->getType()->isFloatTy())
                d = cf->getValueAPF().convertToFloat();
            else if (cf->getType()->isDoubleTy())
                d = cf->getValueAPF().convertToDouble();
            else
                throw Undecided{"long double"};
            return V::F(D->constant(d));
        }
        if (isa<ConstantPointerNull>(C)) return V::I(0);
        if (isa<UndefValue>(C)) {
            if (C->getType()->isFloatingPointTy()) return V::F(D->undef());
            if (C->getType()->isAggregateType() || C->getType()->isVectorTy()) {
                V r;
                r.k = V::Agg;
                u64 n = C->getType()->isStructTy() ? C->getType()->getStructNumElements()
                        : C->getType()->isArrayTy()
                          ? C->getType()->getArrayNumElements()
                          : cast<FixedVectorType>(C->getType())->getNumElements();
                r.a = V::mkAgg(n);
                for (unsigned i = 0; i < n; ++i) {
                    auto *e = cast<UndefValue>(C)->getElementValue(i);
                    (*r.a)[i] = evalConst(e);
                }
                return r;
            }
            return V::U();
        }
        if (auto *gv = dyn_cast<GlobalValue>(C)) return V::I(addrOf(gv));
        if (auto *ca = dyn_cast<ConstantAggregateZero>(C)) {
            V r;
            r.k = V::Agg;
            r.a = V::mkAgg();
            u64 n = ca->getElementCount().getFixedValue();
            for (u64 i = 0; i < n; ++i) r.a->push_back(evalConst(ca->getElementValue(i)));
            return r;
        }
        if (isa<ConstantAggregate>(C)) {
            V r;
            r.k = V::Agg;
            r.a = V::mkAgg();
            for (auto &o : C->operands()) r.a->push_back(evalConst(cast<Constant>(o)));
            return r;
        }
        if (auto *cd = dyn_cast<ConstantDataSequential>(C)) {
            V r;
            r.k = V::Agg;
            r.a = V::mkAgg();
            for (unsigned i = 0; i < cd->getNumElements(); ++i)
                r.a->push_back(evalConst(cd->getElementAsConstant(i)));
            return r;
        }
        if (auto *ce = dyn_cast<ConstantExpr>(C)) {
            if (auto *g = dyn_cast<GEPOperator>(ce)) {
                V b = evalConst(cast<Constant>(g->getPointerOperand()));
                APInt off(64, 0);
                if (b.k != V::Int || !g->accumulateConstantOffset(DL, off)) throw Undecided{"constant gep"};
                return V::I(b.i + off.getSExtValue());
            }
            switch (ce->getOpcode()) {
                case Instruction::BitCast:
                case Instruction::PtrToInt:
                case Instruction::IntToPtr:
                case Instruction::AddrSpaceCast: return evalConst(ce->getOperand(0));
                case Instruction::Sub: {
                    u64 w = ce->getType()->getIntegerBitWidth();
                    u64 r = constInt(ce->getOperand(0)) - constInt(ce->getOperand(1));
                    return V::I(w < 64 ? r & ((1ull << w) - 1) : r);
                }
                case Instruction::Add: return V::I(constInt(ce->getOperand(0)) + constInt(ce->getOperand(1)));
                case Instruction::Trunc: {
                    u64 w = ce->getType()->getIntegerBitWidth();
                    return V::I(constInt(ce->getOperand(0)) & ((1ull << w) - 1));
                }
                default: throw Undecided{"constant expression"};
            }
        }
        throw Undecided{"constant"};
    }

    // ---------------------------------------------------------------- frames
    struct FnInfo {
        DenseMap<const Value *, unsigned> slot;
        unsigned n = 0;
        bool mine = false, byval = false;
        bool ext = false;  // no body, or an analysis intrinsic
    };
    DenseMap<const Function *, std::unique_ptr<FnInfo>> info;
    FnInfo &fi(const Function *F) {
        auto &p = info[F];
        if (!p) {
            p = std::make_unique<FnInfo>();
            p->ext = F->isDeclaration() || F->getName().starts_with("wg_");
            for (auto &A : F->args()) p->byval = p->byval || (!F->isDeclaration() && A.hasByValAttr());
            for (auto &A : F->args()) p->slot[&A] = p->n++;
            for (auto &B : *F)
                for (auto &I : B)
                    if (!I.getType()->isVoidTy()) p->slot[&I] = p->n++;
            if (auto *sp = F->getSubprogram())
                p->mine = sp->getFilename().contains("/repo/include");
        }
        return *p;
    }
    struct Frame {
        FnInfo *fi;
        std::vector<V> v;
        std::vector<Obj *> allocas;
    };
    std::vector<std::vector<V>> pool;
    V get(Frame &fr, const Value *x) {
        if (auto *C = dyn_cast<Constant>(x)) return evalConst(C);
        auto it = fr.fi->slot.find(x);
        if (it == fr.fi->slot.end()) throw Undecided{"operand"};
        return fr.v[it->second];
    }
    u64 geti(Frame &fr, const Value *x, const char *what = "integer") {
        V v = get(fr, x);
        if (v.k == V::Undef) {
            event("uninit", string("use of an uninitialised ") + what);
            throw Abort{"uninitialised integer"};
        }
        if (v.k == V::Fp) {
            double c;
            if (D->isConst(v.f, c)) {
                u64 b;
                if (x->getType()->isIntegerTy(32)) {
                    float fl = (float)c;
                    uint32_t w;
                    memcpy(&w, &fl, 4);
                    return w;
                }
                memcpy(&b, &c, 8);
                return b;
            }
            throw Undecided{"bit pattern of an abstract number"};
        }
        if (v.k != V::Int) throw Undecided{"aggregate as integer"};
        return v.i;
    }
    fid getf(Frame &fr, const Value *x) {
        V v = get(fr, x);
        return asF(v, x->getType());
    }
    fid asF(const V &v, Type *T) {
        if (v.k == V::Fp) return v.f;
        if (v.k == V::Int) {
            if (T->isFloatTy()) {
                float d;
                uint32_t w = (uint32_t)v.i;
                memcpy(&d, &w, 4);
                return D->constant(d);
            }
            double d;
            memcpy(&d, &v.i, 8);
            return D->constant(d);
        }
        return D->undef();
    }
    static u64 mask(u64 v, unsigned w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
    static int64_t sx(u64 v, unsigned w) {
        if (w >= 64) return (int64_t)v;
        u64 m = 1ull << (w - 1);
        v = mask(v, w);
        return (int64_t)((v ^ m) - m);
    }

    void tag(size_t before) {
        size_t now = dual ? dual->el.size() : ser->el.size();
        while (orgs.size() < now) orgs.push_back(orgs.size() >= before ? curMine() : nullptr);
    }
    // innermost location inside the library (or the current instruction)
    const Instruction *curMine() {
        if (isMine(cur)) return cur;
        for (auto it = cstack.rbegin(); it != cstack.rend(); ++it)
            if (isMine(*it)) return *it;
        return cur;
    }
    bool isMine(const Instruction *I) { return I && fi(I->getFunction()).mine; }

    V call(const Function *F, std::vector<V> args, const CallBase *cb) {
        FnInfo &info = fi(F);
        if (info.ext) return external(F, args, cb);
        if (cstack.size() > 1500) {
            event("recursion", "unbounded recursion through " + demangle(F->getName().str()));
            throw Abort{"unbounded recursion"};
        }
        Frame fr;
        const size_t sci = stackMem.ci, soff = stackMem.off;
        fr.fi = &info;
        if (pool.empty()) pool.emplace_back();
        fr.v = std::move(pool.back());
        pool.pop_back();
        fr.v.assign(info.n, V());
        if (fr.fi->mine) fns.insert(F);
        unsigned k = 0;
        const unsigned na = F->arg_size();  // the arguments have the first slots
        for (; k < na && k < args.size(); ++k) fr.v[k] = args[k];
        const BasicBlock *BB = &F->getEntryBlock(), *prev = nullptr;
        V ret;
        const Instruction *saved = cur;
        if (cb) cstack.push_back(cb);
        size_t depth = cstack.size();
        while (true) {
            // phis
            SmallVector<std::pair<unsigned, V>, 4> ph;
            auto it = BB->begin();
            for (; it != BB->end(); ++it) {
                auto *p = dyn_cast<PHINode>(&*it);
                if (!p) break;
                ph.push_back({fr.fi->slot[p], get(fr, p->getIncomingValueForBlock(prev))});
            }
            for (auto &p : ph) fr.v[p.first] = p.second;
            bool done = false;
            const BasicBlock *nextBB = nullptr;
            for (; it != BB->end(); ++it) {
                const Instruction &I = *it;
                cur = &I;
                if (++steps > maxSteps) throw Undecided{"analysis budget exhausted"};
                if (fr.fi->mine)
                    if (auto *dl = I.getDebugLoc().get()) locs.insert(dl);
                if (auto *r = dyn_cast<ReturnInst>(&I)) {
                    if (r->getReturnValue()) ret = get(fr, r->getReturnValue());
                    done = true;
                    break;
                }
                if (auto *b = dyn_cast<BranchInst>(&I)) {
                    if (b->isUnconditional())
                        nextBB = b->getSuccessor(0);
                    else {
                        V c = get(fr, b->getCondition());
                        if (c.k != V::Int) {
                            event("uninit", "branch on an uninitialised value");
                            throw Abort{"branch on uninitialised"};
                        }
                        nextBB = b->getSuccessor(c.i & 1 ? 0 : 1);
                    }
                    break;
                }
                if (auto *s = dyn_cast<SwitchInst>(&I)) {
                    u64 c = geti(fr, s->getCondition());
                    nextBB = s->getDefaultDest();
                    for (auto &cs : s->cases())
                        if (cs.getCaseValue()->getZExtValue() == c) nextBB = cs.getCaseSuccessor();
                    break;
                }
                if (isa<UnreachableInst>(&I)) {
                    event("unreachable", "control reaches an unreachable point");
                    throw Abort{"unreachable"};
                }
                if (auto *iv = dyn_cast<InvokeInst>(&I)) {
                    V r = doCall(fr, iv);
                    if (!iv->getType()->isVoidTy()) fr.v[fr.fi->slot[iv]] = r;
                    nextBB = iv->getNormalDest();
                    break;
                }
                size_t before = orgs.size();
                V r = exec(fr, I);
                cur = &I;
                tag(before);
                if (!I.getType()->isVoidTy()) fr.v[fr.fi->slot[&I]] = std::move(r);
            }
            if (done) break;
            prev = BB;
            BB = nextBB;
        }
        for (Obj *o : fr.allocas) {
            if (o->state == 1) o->death = cur;
            o->state = 0;
            o->mem = nullptr;
        }
        pool.push_back(std::move(fr.v));
        stackMem.ci = sci;
        stackMem.off = soff;
        cstack.resize(depth);
        if (cb) cstack.pop_back();
        cur = saved;
        return ret;
    }
    V doCall(Frame &fr, const CallBase *cb) {
        const Function *F = cb->getCalledFunction();
        if (!F) {
            const Value *cv = cb->getCalledOperand();
            u64 a = geti(fr, cv, "function pointer");
            auto it = faddr.find(a);
            if (it == faddr.end()) {
                event("memory", "call through an invalid function pointer");
                throw Abort{"bad call"};
            }
            F = it->second;
        }
        if (auto *II = dyn_cast<IntrinsicInst>(cb)) {
            switch (II->getIntrinsicID()) {
                case Intrinsic::dbg_declare:
                case Intrinsic::dbg_value:
                case Intrinsic::dbg_label:
                case Intrinsic::assume:
                case Intrinsic::experimental_noalias_scope_decl: return V();
                default: break;
            }
        }
        FnInfo &callee = fi(F);
        std::vector<V> args;
        args.reserve(cb->arg_size());
        for (unsigned i = 0; i < cb->arg_size(); ++i) {
            V a;
            if (cb->getArgOperand(i)->getType()->isMetadataTy())
                a = V();
            else
                a = get(fr, cb->getArgOperand(i));
            if (callee.byval && cb->isByValArgument(i)) {
                u64 sz = DL.getTypeAllocSize(cb->getParamByValType(i));
                Obj *o = alloc(sz, Obj::Stack, "by-value argument");
                copy(o->base, a.i, sz);
                fr.allocas.push_back(o);
                a = V::I(o->base);
            }
            args.push_back(a);
        }
        return call(F, std::move(args), cb);
    }

    V mapv(Type *T, const std::vector<V> &ops, const std::function<V(const std::vector<V> &, Type *)> &f) {
        if (auto *vt = dyn_cast<FixedVectorType>(T)) {
            V r;
            r.k = V::Agg;
            r.a = V::mkAgg();
            for (unsigned i = 0; i < vt->getNumElements(); ++i) {
                std::vector<V> e;
                for (auto &o : ops) e.push_back(o.k == V::Agg ? (*o.a)[i] : V::U());
                r.a->push_back(f(e, vt->getElementType()));
            }
            return r;
        }
        return f(ops, T);
    }

    int truthOf(const V &v) { return v.k == V::Int ? (int)(v.i & 1) : -1; }

    void noteTie(fid a, fid b, bool eq) {
        if (eq && dual && (dual->el[a].d >= 0 || dual->el[b].d >= 0) && a != b) tie = true;
    }
    void notePin(fid a, fid b) {
        double c;
        if (!dual || var.kind != Variant::None || !D->isConst(b, c) || !std::isfinite(c)) return;
        auto it = leafs.find(dual->el[a].v);
        if (it != leafs.end() && !dual->isConst(a, c)) pinReq.insert({it->second.first, it->second.second, dual->el[b].isc ? dual->el[b].c : c});
    }
    bool fcmp(unsigned p, fid a, fid b) {
        uint8_t fa = D->flags(a), fb = D->flags(b);
        if ((fa | fb) & FL_UNDEF) {
            event("uninit", "comparison of an uninitialised number");
            throw Abort{"comparison of uninitialised"};
        }
        if ((fa | fb) & FL_NAN) return CmpInst::isUnordered((CmpInst::Predicate)p) || p == CmpInst::FCMP_UNE ||
                                       p == CmpInst::FCMP_TRUE;
        oracle.where = here();
        switch (p) {
            case CmpInst::FCMP_ORD: return true;
            case CmpInst::FCMP_UNO: return false;
            case CmpInst::FCMP_TRUE: return true;
            case CmpInst::FCMP_FALSE: return false;
            case CmpInst::FCMP_OEQ:
            case CmpInst::FCMP_UEQ:
            case CmpInst::FCMP_ONE:
            case CmpInst::FCMP_UNE: {
                bool eq = D->equal(a, b);
                noteTie(a, b, eq);
                if (!eq) notePin(a, b), notePin(b, a);
                return eq == (p == CmpInst::FCMP_OEQ || p == CmpInst::FCMP_UEQ);
            }
        }
        int c = D->cmp(a, b);
        noteTie(a, b, c == 0);
        switch (p) {
            case CmpInst::FCMP_OGT:
            case CmpInst::FCMP_UGT: return c > 0;
            case CmpInst::FCMP_OGE:
            case CmpInst::FCMP_UGE: return c >= 0;
            case CmpInst::FCMP_OLT:
            case CmpInst::FCMP_ULT: return c < 0;
            case CmpInst::FCMP_OLE:
            case CmpInst::FCMP_ULE: return c <= 0;
        }
        throw Undecided{"fcmp"};
    }

    V binop(unsigned op, const V &x, const V &y, Type *T) {
        if (T->isFloatingPointTy()) {
            fid a = asF(x, T), b = asF(y, T);
            switch (op) {
                case Instruction::FAdd: return V::F(D->add(a, b));
                case Instruction::FSub: return V::F(D->sub(a, b));
                case Instruction::FMul: return V::F(D->mul(a, b));
                case Instruction::FDiv: return V::F(D->div(a, b));
                case Instruction::FRem: return V::F(D->opaque("frem", {a, b}));
            }
            throw Undecided{"fp op"};
        }
        unsigned w = T->getIntegerBitWidth();
        if (x.k == V::Undef || y.k == V::Undef) return V::U();
        if (x.k == V::Fp || y.k == V::Fp) {
            // sign-bit manipulation
            const V &f = x.k == V::Fp ? x : y;
            const V &o = x.k == V::Fp ? y : x;
            if (o.k == V::Int) {
                u64 sign = 1ull << (w - 1);
                if (op == Instruction::And && o.i == mask(~sign, w)) return V::F(D->fabs(f.f));
                if (op == Instruction::Xor && o.i == sign) return V::F(D->neg(f.f));
                if (op == Instruction::LShr && &f == &x && o.i == w - 1)
                    return V::I(D->cmp(f.f, D->constant(0)) < 0 ? 1 : 0);
            }
            throw Undecided{"integer operation on a number"};
        }
        u64 a = x.i, b = y.i, r = 0;
        if (w > 64) throw Undecided{"wide integer"};
        switch (op) {
            case Instruction::Add: r = a + b; break;
            case Instruction::Sub: r = a - b; break;
            case Instruction::Mul: r = a * b; break;
            case Instruction::And: r = a & b; break;
            case Instruction::Or: r = a | b; break;
            case Instruction::Xor: r = a ^ b; break;
            case Instruction::Shl: r = b < w ? a << b : 0; break;
            case Instruction::LShr: r = b < w ? mask(a, w) >> b : 0; break;
            case Instruction::AShr: r = b < w ? (u64)(sx(a, w) >> b) : 0; break;
            case Instruction::UDiv:
            case Instruction::URem:
            case Instruction::SDiv:
            case Instruction::SRem:
                if (mask(b, w) == 0) {
                    event("arith", "integer division by zero");
                    throw Abort{"division by zero"};
                }
                if (op == Instruction::UDiv) r = mask(a, w) / mask(b, w);
                if (op == Instruction::URem) r = mask(a, w) % mask(b, w);
                if (op == Instruction::SDiv) r = (u64)(sx(a, w) / sx(b, w));
                if (op == Instruction::SRem) r = (u64)(sx(a, w) % sx(b, w));
                break;
            default: throw Undecided{"integer operation"};
        }
        return V::I(mask(r, w));
    }

    V exec(Frame &fr, const Instruction &I) {
        unsigned op = I.getOpcode();
        Type *T = I.getType();
        switch (op) {
            case Instruction::Alloca: {
                auto &A = cast<AllocaInst>(I);
                u64 n = geti(fr, A.getArraySize());
                Obj *o = alloc(std::max<u64>(1, n * DL.getTypeAllocSize(A.getAllocatedType())), Obj::Stack, string(),
                               std::max<u64>(16, A.getAlign().value()));
                fr.allocas.push_back(o);
                return V::I(o->base);
            }
            case Instruction::Load: return load(geti(fr, I.getOperand(0), "pointer"), T);
            case Instruction::Store:
                store(geti(fr, I.getOperand(1), "pointer"), get(fr, I.getOperand(0)), I.getOperand(0)->getType());
                return V();
            case Instruction::GetElementPtr: {
                auto &G = cast<GetElementPtrInst>(I);
                u64 a = geti(fr, G.getPointerOperand(), "pointer");
                for (auto gt = gep_type_begin(G), e = gep_type_end(G); gt != e; ++gt) {
                    u64 idx = geti(fr, gt.getOperand(), "index");
                    if (StructType *st = gt.getStructTypeOrNull())
                        a += DL.getStructLayout(st)->getElementOffset((unsigned)idx);
                    else
                        a += (u64)sx(idx, gt.getOperand()->getType()->getIntegerBitWidth()) *
                             DL.getTypeAllocSize(gt.getIndexedType());
                }
                return V::I(a);
            }
            case Instruction::Call: return doCall(fr, cast<CallBase>(&I));
            case Instruction::BitCast: {
                V v = get(fr, I.getOperand(0));
                Type *S = I.getOperand(0)->getType();
                if (T->isVectorTy() || S->isVectorTy()) {
                    if (T == S) return v;
                    throw Undecided{"vector bitcast"};
                }
                if (T->isFloatingPointTy() && v.k == V::Int) return V::F(asF(v, T));
                if (T->isFloatingPointTy() && v.k == V::Undef) return V::F(D->undef());
                return v;
            }
            case Instruction::PtrToInt:
            case Instruction::IntToPtr:
            case Instruction::AddrSpaceCast: return get(fr, I.getOperand(0));
            case Instruction::Trunc: {
                V v = get(fr, I.getOperand(0));
                if (v.k == V::Undef) return v;
                return V::I(mask(geti(fr, I.getOperand(0)), T->getIntegerBitWidth()));
            }
            case Instruction::ZExt: {
                V v = get(fr, I.getOperand(0));
                if (v.k == V::Undef) return v;
                return V::I(geti(fr, I.getOperand(0)));
            }
            case Instruction::SExt: {
                V v = get(fr, I.getOperand(0));
                if (v.k == V::Undef) return v;
                return V::I(mask((u64)sx(geti(fr, I.getOperand(0)), I.getOperand(0)->getType()->getIntegerBitWidth()),
                                 T->getIntegerBitWidth()));
            }
            case Instruction::FPTrunc:
            case Instruction::FPExt: return V::F(getf(fr, I.getOperand(0)));
            case Instruction::SIToFP: {
                V v = get(fr, I.getOperand(0));
                if (v.k == V::Fp) return v;
                return V::F(D->constant((double)sx(geti(fr, I.getOperand(0)),
                                                   I.getOperand(0)->getType()->getIntegerBitWidth())));
            }
            case Instruction::UIToFP: {
                V v = get(fr, I.getOperand(0));
                if (v.k == V::Fp) return v;
                return V::F(D->constant((double)geti(fr, I.getOperand(0))));
            }
            case Instruction::FPToSI:
            case Instruction::FPToUI: {
                double c;
                if (!D->isConst(getf(fr, I.getOperand(0)), c)) throw Undecided{"conversion to integer"};
                return V::I(mask((u64)(int64_t)c, T->getIntegerBitWidth()));
            }
            case Instruction::FNeg:
                return mapv(T, {get(fr, I.getOperand(0))},
                            [&](const std::vector<V> &e, Type *E) { return V::F(D->neg(asF(e[0], E))); });
            case Instruction::ICmp: {
                auto &C = cast<ICmpInst>(I);
                V x = get(fr, C.getOperand(0)), y = get(fr, C.getOperand(1));
                if (x.k == V::Fp && y.k == V::Int && y.i == 0 && C.getPredicate() == CmpInst::ICMP_SLT)
                    return V::I(D->cmp(x.f, D->constant(0)) < 0);
                if (x.k == V::Undef || y.k == V::Undef) return V::U();
                u64 a = geti(fr, C.getOperand(0)), b = geti(fr, C.getOperand(1));
                Type *OT = C.getOperand(0)->getType();
                unsigned w = OT->isPointerTy() ? 64 : OT->getIntegerBitWidth();
                int64_t sa = sx(a, w), sb = sx(b, w);
                bool r = false;
                switch (C.getPredicate()) {
                    case CmpInst::ICMP_EQ: r = a == b; break;
                    case CmpInst::ICMP_NE: r = a != b; break;
                    case CmpInst::ICMP_UGT: r = a > b; break;
                    case CmpInst::ICMP_UGE: r = a >= b; break;
                    case CmpInst::ICMP_ULT: r = a < b; break;
                    case CmpInst::ICMP_ULE: r = a <= b; break;
                    case CmpInst::ICMP_SGT: r = sa > sb; break;
                    case CmpInst::ICMP_SGE: r = sa >= sb; break;
                    case CmpInst::ICMP_SLT: r = sa < sb; break;
                    case CmpInst::ICMP_SLE: r = sa <= sb; break;
                    default: throw Undecided{"icmp"};
                }
                return V::I(r);
            }
            case Instruction::FCmp: {
                auto &C = cast<FCmpInst>(I);
                if (T->isVectorTy()) throw Undecided{"vector comparison"};
                return V::I(fcmp(C.getPredicate(), getf(fr, C.getOperand(0)), getf(fr, C.getOperand(1))));
            }
            case Instruction::Select: {
                V c = get(fr, I.getOperand(0));
                if (c.k != V::Int) {
                    event("uninit", "selection on an uninitialised value");
                    throw Abort{"select on uninitialised"};
                }
                return get(fr, I.getOperand(c.i & 1 ? 1 : 2));
            }
            case Instruction::ExtractValue: {
                V v = get(fr, I.getOperand(0));
                for (unsigned k : cast<ExtractValueInst>(I).indices()) {
                    if (v.k != V::Agg) return V::U();
                    V t = (*v.a)[k];
                    v = t;
                }
                return v;
            }
            case Instruction::InsertValue: {
                auto &J = cast<InsertValueInst>(I);
                V v = get(fr, J.getAggregateOperand());
                return ins(v, J.getType(), J.getIndices(), get(fr, J.getInsertedValueOperand()));
            }
            case Instruction::ExtractElement: {
                V v = get(fr, I.getOperand(0));
                if (v.k != V::Agg) return V::U();
                return (*v.a)[geti(fr, I.getOperand(1))];
            }
            case Instruction::InsertElement: {
                V v = get(fr, I.getOperand(0));
                V r;
                r.k = V::Agg;
                r.a = V::mkAgg();
                unsigned n = cast<FixedVectorType>(T)->getNumElements();
                if (v.k == V::Agg)
                    *r.a = *v.a;
                else
                    r.a->resize(n, V::U());
                (*r.a)[geti(fr, I.getOperand(2))] = get(fr, I.getOperand(1));
                return r;
            }
            case Instruction::ShuffleVector: {
                auto &S = cast<ShuffleVectorInst>(I);
                V a = get(fr, S.getOperand(0)), b = get(fr, S.getOperand(1));
                unsigned n = cast<FixedVectorType>(S.getOperand(0)->getType())->getNumElements();
                V r;
                r.k = V::Agg;
                r.a = V::mkAgg();
                for (int m : S.getShuffleMask()) {
                    if (m < 0)
                        r.a->push_back(V::U());
                    else if ((unsigned)m < n)
                        r.a->push_back(a.k == V::Agg ? (*a.a)[m] : V::U());
                    else
                        r.a->push_back(b.k == V::Agg ? (*b.a)[m - n] : V::U());
                }
                return r;
            }
            case Instruction::Freeze: {
                V v = get(fr, I.getOperand(0));
                return v.k == V::Undef ? V::I(0) : v;
            }
            case Instruction::AtomicRMW: {
                auto &A = cast<AtomicRMWInst>(I);
                u64 p = geti(fr, A.getPointerOperand());
                V old = load(p, T);
                unsigned bo;
                switch (A.getOperation()) {
                    case AtomicRMWInst::Add: bo = Instruction::Add; break;
                    case AtomicRMWInst::Sub: bo = Instruction::Sub; break;
                    default: throw Undecided{"atomic"};
                }
                atomicOp = true;  // reference counts: race-free by construction
                store(p, binop(bo, old, get(fr, A.getValOperand()), T), T);
                atomicOp = false;
                return old;
            }
            case Instruction::AtomicCmpXchg: throw Undecided{"cmpxchg"};
            case Instruction::Fence: return V();
            default:
                if (I.isBinaryOp()) {
                    return mapv(T, {get(fr, I.getOperand(0)), get(fr, I.getOperand(1))},
                                [&](const std::vector<V> &e, Type *E) { return binop(op, e[0], e[1], E); });
                }
                throw Undecided{string("instruction ") + I.getOpcodeName()};
        }
    }
    V ins(const V &v, Type *T, ArrayRef<unsigned> ix, const V &x) {
        if (ix.empty()) return x;
        V r;
        r.k = V::Agg;
        r.a = V::mkAgg();
        u64 n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
        if (v.k == V::Agg)
            *r.a = *v.a;
        else
            r.a->resize(n, V::U());
        Type *E = T->isStructTy() ? T->getStructElementType(ix[0]) : T->getArrayElementType();
        (*r.a)[ix[0]] = ins((*r.a)[ix[0]], E, ix.drop_front(), x);
        return r;
    }

    // ---------------------------------------------------------------- externals
    string cstr(u64 a) {
        string s;
        while (true) {
            Obj *o = find(a);
            if (!o) return s;
            if (!o->mem) return s;
            Byte b = o->mem[a - o->base];
            if (b.kind != 1 || !b.b) return s;
            s += (char)b.b;
            ++a;
        }
    }
    fid ldf(u64 a) {
        size_t b = orgs.size();
        V v = load(a, Type::getDoubleTy(M.getContext()));
        tag(b);
        return v.f;
    }
    void stf(u64 a, fid f) { storeFp(a, f, 8); }

    V external(const Function *F, std::vector<V> &a, const CallBase *cb) {
        StringRef n = F->getName();
        if (n.starts_with("llvm.")) return intrinsic(F, a, cb);
        if (n.starts_with("wg_")) return wg(n, a);
        auto f1 = [&](unsigned k) { return asF(a[k], F->getFunctionType()->getParamType(k)); };
        StringRef m = n;
        if (m == "sinf" || m == "cosf" || m == "acosf" || m == "asinf" || m == "atan2f" || m == "sqrtf" ||
            m == "fabsf" || m == "hypotf" || m == "tanf" || m == "atanf" || m == "powf")
            m = m.drop_back();
        if (m == "sin") return V::F(D->sin(f1(0)));
        if (m == "cos") return V::F(D->cos(f1(0)));
        if (m == "tan") return V::F(D->div(D->sin(f1(0)), D->cos(f1(0))));
        if (m == "acos") return V::F(D->acos(f1(0)));
        if (m == "asin") return V::F(D->asin(f1(0)));
        if (m == "atan2") return V::F(D->atan2(f1(0), f1(1)));
        if (m == "atan") return V::F(D->atan2(f1(0), D->constant(1)));
        if (m == "sqrt") return V::F(D->sqrt(f1(0)));
        if (m == "fabs") return V::F(D->fabs(f1(0)));
        if (m == "hypot") return V::F(D->sqrt(D->add(D->mul(f1(0), f1(0)), D->mul(f1(1), f1(1)))));
        if (m == "pow") {
            double c;
            fid x = f1(0);
            if (D->isConst(f1(1), c) && c == std::floor(c) && std::fabs(c) <= 8) {
                fid r = D->constant(1);
                for (int i = 0; i < std::abs((int)c); ++i) r = D->mul(r, x);
                return V::F(c < 0 ? D->div(D->constant(1), r) : r);
            }
            if (D->isConst(f1(1), c) && c == 0.5) return V::F(D->sqrt(x));
            double xc;
            if (D->isConst(x, xc) && D->isConst(f1(1), c)) return V::F(D->constant(std::pow(xc, c)));
            return V::F(D->opaque("pow", {x, f1(1)}));
        }
        if (m == "sincos") {
            stf(a[1].i, D->sin(f1(0)));
            stf(a[2].i, D->cos(f1(0)));
            return V();
        }
        if (m == "exp" || m == "log" || m == "sinh" || m == "cosh" || m == "tanh" || m == "log1p" || m == "cbrt" ||
            m == "floor" || m == "ceil" || m == "round" || m == "fmod" || m == "expm1" || m == "log2") {
            std::vector<fid> v;
            bool allc = true;
            double c = 0;
            for (unsigned k = 0; k < a.size(); ++k) {
                v.push_back(f1(k));
                allc = allc && D->isConst(v.back(), c);
            }
            if (allc && a.size() == 1) {
                if (m == "exp") return V::F(D->constant(std::exp(c)));
                if (m == "log" || m == "log2") return V::F(D->constant(m == "log" ? std::log(c) : std::log2(c)));
                if (m == "floor") return V::F(D->constant(std::floor(c)));
                if (m == "ceil") return V::F(D->constant(std::ceil(c)));
            }
            return V::F(D->opaque(m.str().c_str(), v));
        }
        if (n == "isnan" || n == "__isnan") return V::I((D->flags(f1(0)) & FL_NAN) ? 1 : 0);
        if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmSt11align_val_t" ||
            n == "_ZnamSt11align_val_t" || n == "aligned_alloc" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t") {
            u64 sz = n == "aligned_alloc" ? a[1].i : a[0].i;
            if (noalloc) event("alloc", "heap allocation while evaluating " + noallocLabel);
            ++allocCount;
            Obj *o = alloc(std::max<u64>(1, sz), Obj::Heap, "heap block", 64);
            return V::I(o->base);
        }
        if (n == "posix_memalign") {
            if (noalloc) event("alloc", "heap allocation while evaluating " + noallocLabel);
            ++allocCount;
            Obj *o = alloc(std::max<u64>(1, a[2].i), Obj::Heap, "heap block", 64);
            storeInt(a[0].i, o->base, 8);
            return V::I(0);
        }
        if (n == "_ZdlPv" || n == "_ZdaPv" || n == "free" || n == "_ZdlPvm" || n == "_ZdaPvm" ||
            n == "_ZdlPvSt11align_val_t" || n == "_ZdlPvmSt11align_val_t" || n == "_ZdaPvSt11align_val_t") {
            if (!a[0].i) return V();
            Obj *o = find(a[0].i);
            if (!o || o->kind != Obj::Heap || o->base != a[0].i) {
                event("memory", "free of a pointer that is not a heap block");
                throw Abort{"bad free"};
            }
            if (o->state != 1) event("lifetime", "heap block freed twice");
            o->state = 2;
            o->death = cur;
            return V();
        }
        if (n == "memcpy" || n == "memmove") {
            copy(a[0].i, a[1].i, a[2].i);
            return a[0];
        }
        if (n == "memset") {
            for (u64 i = 0; i < a[2].i; ++i) storeInt(a[0].i + i, a[1].i & 255, 1);
            return a[0];
        }
        if (n == "strlen") return V::I(cstr(a[0].i).size());
        if (n == "__cxa_guard_acquire") {
            V v = load(a[0].i, Type::getInt8Ty(M.getContext()));
            bool first = v.k == V::Int && v.i == 0;
            if (first) ++inGuard;
            return V::I(first ? 1 : 0);
        }
        if (n == "__cxa_guard_release") {
            if (inGuard) --inGuard;
            storeInt(a[0].i, 1, 1);
            return V();
        }
        if (n == "__cxa_guard_abort" || n == "__cxa_atexit" || n == "atexit") return V::I(0);
        if (n == "nextafterf") {
            double x, y;
            if (!D->isConst(f1(0), x) || !D->isConst(f1(1), y)) throw Undecided{"nextafterf of a variable"};
            return V::F(D->constant(std::nextafter(float(x), float(y))));
        }
        if (n == "nextafter" || n == "nexttoward") {
            double x, y;
            if (!D->isConst(f1(0), x) || !D->isConst(f1(1), y)) throw Undecided{"nextafter of a variable"};
            return V::F(D->constant(std::nextafter(x, y)));
        }
        if (n.starts_with("_ZNSt13random_device")) return V::I(F->getName().contains("getval") ? 5489 : 0);
        if (n == "rand") {
            if (!dual) throw Undecided{"rand"};
            fid f = dual->mk(dual->rng.field(), -1);
            return V::F(f);
        }
        if (n == "_ZNSt8ios_base4InitC1Ev" || n == "_ZNSt8ios_base4InitD1Ev" || n == "pthread_once") return V();
        if (n == "pthread_mutex_lock" || n == "pthread_mutex_unlock") return V::I(0);
        if (n == "__assert_fail" || n == "abort" || n == "_ZSt9terminatev" || n == "__cxa_pure_virtual" ||
            n.starts_with("_ZSt") && n.contains("throw")) {
            event("abort", "call of " + demangle(n.str()));
            throw Abort{"terminating call " + demangle(n.str())};
        }
        throw Undecided{"call of external " + demangle(n.str())};
    }
    V intrinsic(const Function *F, std::vector<V> &a, const CallBase *cb) {
        Type *T = F->getReturnType();
        auto f1 = [&](unsigned k) { return asF(a[k], F->getFunctionType()->getParamType(k)); };
        switch (F->getIntrinsicID()) {
            case Intrinsic::lifetime_start: {
                Obj *o = find(a[1].i);
                if (o && o->mem) {
                    o->state = 1;
                    std::fill(o->mem, o->mem + o->size, Byte());
                }
                return V();
            }
            case Intrinsic::lifetime_end: {
                Obj *o = find(a[1].i);
                if (o) {
                    o->state = 0;
                    o->death = cur;
                }
                return V();
            }
            case Intrinsic::memcpy:
            case Intrinsic::memcpy_inline:
            case Intrinsic::memmove: copy(a[0].i, a[1].i, a[2].i); return V();
            case Intrinsic::memset: {
                u64 n = a[2].i;
                if (!n) return V();
                std::vector<Byte> b(n);
                for (auto &x : b) {
                    x.kind = a[1].k == V::Int ? 1 : 0;
                    x.b = a[1].i & 255;
                }
                storeBytes(a[0].i, b.data(), n);
                return V();
            }
            case Intrinsic::fmuladd:
            case Intrinsic::fma: return V::F(D->add(D->mul(f1(0), f1(1)), f1(2)));
            case Intrinsic::sqrt: return V::F(D->sqrt(f1(0)));
            case Intrinsic::fabs: return V::F(D->fabs(f1(0)));
            case Intrinsic::sin: return V::F(D->sin(f1(0)));
            case Intrinsic::cos: return V::F(D->cos(f1(0)));
            case Intrinsic::minnum:
            case Intrinsic::maxnum:
            case Intrinsic::minimum:
            case Intrinsic::maximum: {
                fid x = f1(0), y = f1(1);
                bool mn = F->getIntrinsicID() == Intrinsic::minnum || F->getIntrinsicID() == Intrinsic::minimum;
                if (D->flags(x) & FL_NAN) return V::F(y);
                if (D->flags(y) & FL_NAN) return V::F(x);
                oracle.where = here();
                int c = D->cmp(x, y);
                return V::F((c < 0) == mn ? x : y);
            }
            case Intrinsic::copysign: {
                fid x = D->fabs(f1(0));
                oracle.where = here();
                return V::F(D->cmp(f1(1), D->constant(0)) < 0 ? D->neg(x) : x);
            }
            case Intrinsic::is_fpclass: {
                u64 m = a[1].i;
                fid x = f1(0);
                uint8_t fl = D->flags(x);
                bool isn = fl & FL_NAN, isi = fl & FL_INF;
                bool r = (isn && (m & 3)) || (isi && (m & 0x204)) || (!isn && !isi && (m & 0x1F8));
                return V::I(r);
            }
            case Intrinsic::expect:
            case Intrinsic::expect_with_probability: return a[0];
            case Intrinsic::launder_invariant_group:
            case Intrinsic::strip_invariant_group: return a[0];
            case Intrinsic::invariant_start:
            case Intrinsic::invariant_end:
            case Intrinsic::assume:
            case Intrinsic::donothing:
            case Intrinsic::prefetch: return T->isVoidTy() ? V() : V::I(0);
            case Intrinsic::stacksave: return V::I(0);
            case Intrinsic::stackrestore: return V();
            case Intrinsic::threadlocal_address: return a[0];
            case Intrinsic::is_constant: return V::I(0);
            case Intrinsic::objectsize: return V::I(~0ull);
            case Intrinsic::smax:
            case Intrinsic::smin:
            case Intrinsic::umax:
            case Intrinsic::umin: {
                unsigned w = T->getIntegerBitWidth();
                u64 x = a[0].i, y = a[1].i;
                switch (F->getIntrinsicID()) {
                    case Intrinsic::smax: return V::I(sx(x, w) > sx(y, w) ? x : y);
                    case Intrinsic::smin: return V::I(sx(x, w) < sx(y, w) ? x : y);
                    case Intrinsic::umax: return V::I(x > y ? x : y);
                    default: return V::I(x < y ? x : y);
                }
            }
            case Intrinsic::ctlz:
            case Intrinsic::cttz:
            case Intrinsic::ctpop: {
                unsigned w = T->getIntegerBitWidth();
                u64 x = w < 64 ? a[0].i & ((1ull << w) - 1) : a[0].i;
                if (F->getIntrinsicID() == Intrinsic::ctpop) return V::I(__builtin_popcountll(x));
                if (!x) return V::I(w);
                return V::I(F->getIntrinsicID() == Intrinsic::ctlz ? __builtin_clzll(x) - (64 - w) : __builtin_ctzll(x));
            }
            case Intrinsic::umul_with_overflow:
            case Intrinsic::uadd_with_overflow: {
                u128 r = F->getIntrinsicID() == Intrinsic::umul_with_overflow ? (u128)a[0].i * a[1].i
                                                                             : (u128)a[0].i + a[1].i;
                V v;
                v.k = V::Agg;
                v.a = V::mkAgg();
                v.a->push_back(V::I((u64)r));
                v.a->push_back(V::I((u64)(r >> 64) != 0));
                return v;
            }
            case Intrinsic::trap:
            case Intrinsic::debugtrap:
                event("abort", "trap");
                throw Abort{"trap"};
            default: throw Undecided{"intrinsic " + F->getName().str()};
        }
    }

#include "intrinsics.hpp"
};

#include "main.hpp"
