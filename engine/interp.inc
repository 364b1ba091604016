// ------------------------------------------------------------------ constants
static uint64_t gBaseOf(GlobalVariable *g) { return GLOBB + gIds[g] * SLOT; }
static void constVals(const Constant *c, std::vector<Val> &out);
static uint64_t constAddr(const Constant *c) {
    std::vector<Val> v;
    constVals(c, v);
    return v[0].c;
}
static void pushWide(const APInt &a, std::vector<Val> &out) {
    unsigned w = a.getBitWidth();
    if (w <= 64) { out.push_back(Val(a.getZExtValue())); return; }
    for (unsigned i = 0; i < w; i += 64) out.push_back(Val(a.extractBitsAsZExtValue(std::min(64u, w - i), i)));
}
static std::unordered_map<std::string, uint64_t> extAddr;
static uint64_t funcAddr(Function *f) {
    auto it = fAddr.find(f);
    if (it != fAddr.end()) return it->second;
    if (f->hasExternalWeakLinkage() && f->isDeclaration()) return fAddr[f] = 0;
    uint64_t a = FUNCB + (fList.size() + 1) * 16;
    fList.push_back(f);
    return fAddr[f] = a;
}
static void constVals(const Constant *c, std::vector<Val> &out) {
    Type *t = c->getType();
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
        if (t->isVectorTy()) { for (unsigned i = 0; i < cast<FixedVectorType>(t)->getNumElements(); i++) pushWide(ci->getValue(), out); return; }
        pushWide(ci->getValue(), out);
        return;
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) {
        if (t->isX86_FP80Ty()) {
            APFloat f = cf->getValueAPF();
            bool li;
            f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
            out.push_back(Val(f.bitcastToAPInt().getZExtValue()));
            return;
        }
        out.push_back(Val(cf->getValueAPF().bitcastToAPInt().getZExtValue()));
        return;
    }
    if (isa<ConstantPointerNull>(c)) { out.push_back(Val((uint64_t)0)); return; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        for (size_t i = 0; i < ti(t)->l.size(); i++) out.push_back(Val((uint64_t)0));
        return;
    }
    if (auto *g = dyn_cast<GlobalVariable>(c)) {
        if (!gIds.count(const_cast<GlobalVariable *>(g))) { errs() << "no address for " << g->getName() << "\n"; abort(); }
        out.push_back(Val(gBaseOf(const_cast<GlobalVariable *>(g))));
        return;
    }
    if (auto *f = dyn_cast<Function>(c)) { out.push_back(Val(funcAddr(const_cast<Function *>(f)))); return; }
    if (auto *a = dyn_cast<GlobalAlias>(c)) { constVals(a->getAliasee(), out); return; }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        for (unsigned i = 0; i < cd->getNumElements(); i++) constVals(cd->getElementAsConstant(i), out);
        return;
    }
    if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
        for (unsigned i = 0; i < c->getNumOperands(); i++) constVals(cast<Constant>(c->getOperand(i)), out);
        return;
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off);
            out.push_back(Val(constAddr(ce->getOperand(0)) + off.getZExtValue()));
            return;
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
            std::vector<Val> v;
            constVals(ce->getOperand(0), v);
            if (t->isIntegerTy() && t->getIntegerBitWidth() < 64) v[0].c &= maskw(t->getIntegerBitWidth());
            out.push_back(v[0]);
            return;
        }
        case Instruction::Trunc: {
            std::vector<Val> v; constVals(ce->getOperand(0), v);
            out.push_back(Val(v[0].c & maskw(t->getIntegerBitWidth())));
            return;
        }
        case Instruction::Add: out.push_back(Val(constAddr(ce->getOperand(0)) + constAddr(ce->getOperand(1)))); return;
        case Instruction::Sub: out.push_back(Val((constAddr(ce->getOperand(0)) - constAddr(ce->getOperand(1))) & maskw(t->isIntegerTy() ? t->getIntegerBitWidth() : 64))); return;
        default: break;
        }
    }
    errs() << "unsupported constant " << *c << "\n";
    abort();
}

// -------------------------------------------------------------------- decode
typedef void (*Builtin)(State &, DInst &, std::vector<Val> &, std::vector<Val> &);
static std::unordered_map<std::string, Builtin> builtins;
static std::unordered_map<Function *, Builtin> fBuiltin;
static Builtin builtinFor(Function *f) {
    auto it = fBuiltin.find(f);
    if (it != fBuiltin.end()) return it->second;
    Builtin b = nullptr;
    auto bi = builtins.find(f->getName().str());
    if (bi != builtins.end()) b = bi->second;
    return fBuiltin[f] = b;
}

enum { XGep = 200, XLoad, XStore, XCall, XBr, XCondBr, XIntrin };

static DFunc *decode(Function *F) {
    auto it = dfuncs.find(F);
    if (it != dfuncs.end()) return it->second;
    DFunc *D = new DFunc();
    dfuncs[F] = D;
    D->F = F;
    D->name = F->getName().str();
    std::unordered_map<const Value *, uint32_t> slot;
    std::unordered_map<const Value *, int32_t> cslot;
    std::unordered_map<BasicBlock *, int> bbi;
    for (auto &A : F->args()) {
        uint32_t n = ti(A.getType())->l.size();
        slot[&A] = D->nregs;
        D->args.push_back({D->nregs, n});
        D->nregs += n;
    }
    int bi = 0;
    for (auto &B : *F) {
        bbi[&B] = bi++;
        for (auto &I : B) {
            uint32_t n = ti(I.getType())->l.size();
            if (n) { slot[&I] = D->nregs; D->nregs += n; }
        }
    }
    auto op = [&](Value *v) -> DOp {
        DOp d;
        auto s = slot.find(v);
        if (s != slot.end()) { d.s = s->second; return d; }
        auto c = cslot.find(v);
        if (c != cslot.end()) { d.s = c->second; return d; }
        if (auto *k = dyn_cast<Constant>(v)) {
            int32_t id = -(int32_t)D->consts.size() - 1;
            constVals(k, D->consts);
            if (ti(k->getType())->l.empty()) D->consts.push_back(Val());
            cslot[v] = id;
            d.s = id;
            return d;
        }
        if (isa<InlineAsm>(v) || isa<MetadataAsValue>(v)) { d.s = 0; return d; }
        if (ti(v->getType())->l.empty()) { d.s = 0; return d; }
        errs() << "bad operand " << *v << "\n";
        abort();
    };
    for (auto &B : *F) {
        DBlockS bs;
        bs.first = D->ins.size();
        bs.bb = &B;
        bs.nphi = 0;
        for (auto &I : B) {
            if (isa<DbgInfoIntrinsic>(I)) continue;
            DInst d;
            d.I = &I;
            d.op = I.getOpcode();
            TI *t = ti(I.getType());
            d.t = t;
            d.n = t->l.size();
            if (d.n) { d.dst = slot[&I]; d.w = t->l[0].w; }
            switch (I.getOpcode()) {
            case Instruction::PHI: {
                auto *p = cast<PHINode>(&I);
                for (unsigned i = 0; i < p->getNumIncomingValues(); i++) {
                    d.ops.push_back(op(p->getIncomingValue(i)));
                    d.sc.push_back(bbi[p->getIncomingBlock(i)]);
                }
                bs.nphi++;
                break;
            }
            case Instruction::Br: {
                auto *b = cast<BranchInst>(&I);
                if (b->isConditional()) {
                    d.op = XCondBr;
                    d.a = op(b->getCondition());
                    d.t1 = bbi[b->getSuccessor(0)];
                    d.t2 = bbi[b->getSuccessor(1)];
                } else { d.op = XBr; d.t1 = bbi[b->getSuccessor(0)]; }
                break;
            }
            case Instruction::Switch: {
                auto *sw = cast<SwitchInst>(&I);
                d.a = op(sw->getCondition());
                d.w = sw->getCondition()->getType()->getIntegerBitWidth();
                d.t1 = bbi[sw->getDefaultDest()];
                auto *mp = new std::vector<std::pair<uint64_t, int>>();
                for (auto &c : sw->cases()) mp->push_back({c.getCaseValue()->getZExtValue(), bbi[c.getCaseSuccessor()]});
                d.ex = mp;
                break;
            }
            case Instruction::GetElementPtr: {
                auto *g = cast<GetElementPtrInst>(&I);
                d.op = XGep;
                d.a = op(g->getPointerOperand());
                d.k = 0;
                if (I.getType()->isVectorTy()) { d.op = 255; break; }
                for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                    Value *idx = gi.getOperand();
                    if (auto *stt = gi.getStructTypeOrNull()) {
                        d.k += DL->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                    } else {
                        int64_t sc = DL->getTypeAllocSize(gi.getIndexedType()).getFixedValue();
                        if (auto *ci = dyn_cast<ConstantInt>(idx)) d.k += ci->getSExtValue() * sc;
                        else {
                            d.ops.push_back(op(idx));
                            d.sc.push_back(sc);
                            d.sc.push_back(idx->getType()->getIntegerBitWidth());
                        }
                    }
                }
                break;
            }
            case Instruction::Load:
                d.op = XLoad;
                d.k = cast<LoadInst>(&I)->isAtomic();
                d.a = op(cast<LoadInst>(&I)->getPointerOperand());
                break;
            case Instruction::Store: {
                d.op = XStore;
                auto *s = cast<StoreInst>(&I);
                d.k = s->isAtomic();
                d.a = op(s->getPointerOperand());
                d.b = op(s->getValueOperand());
                d.t = ti(s->getValueOperand()->getType());
                d.n = d.t->l.size();
                break;
            }
            case Instruction::Call: case Instruction::Invoke: {
                auto *cb = cast<CallBase>(&I);
                Function *cf = cb->getCalledFunction();
                if (!cf) if (auto *a = dyn_cast<GlobalAlias>(cb->getCalledOperand())) cf = dyn_cast<Function>(a->getAliasee());
                d.ex = cf;
                if (cf && cf->isIntrinsic()) { d.op = XIntrin; d.k = cf->getIntrinsicID(); }
                else d.op = XCall;
                if (!cf) d.a = op(cb->getCalledOperand());
                if (cb->isInlineAsm()) d.k = -1;
                for (unsigned i = 0; i < cb->arg_size(); i++) {
                    Value *v = cb->getArgOperand(i);
                    d.ops.push_back(op(v));
                    d.sc.push_back(ti(v->getType())->l.size());
                }
                if (auto *iv = dyn_cast<InvokeInst>(&I)) { d.t1 = bbi[iv->getNormalDest()]; d.t2 = bbi[iv->getUnwindDest()]; }
                break;
            }
            case Instruction::Alloca: {
                auto *a = cast<AllocaInst>(&I);
                d.k = DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue();
                d.a = op(a->getArraySize());
                d.w2 = a->getArraySize()->getType()->getIntegerBitWidth();
                break;
            }
            case Instruction::ExtractValue: {
                auto *e = cast<ExtractValueInst>(&I);
                d.a = op(e->getAggregateOperand());
                Type *tt = e->getAggregateOperand()->getType();
                d.k = 0;
                for (unsigned ix : e->indices()) {
                    if (auto *stt = dyn_cast<StructType>(tt)) {
                        for (unsigned j = 0; j < ix; j++) d.k += ti(stt->getElementType(j))->l.size();
                        tt = stt->getElementType(ix);
                    } else { tt = cast<ArrayType>(tt)->getElementType(); d.k += ix * ti(tt)->l.size(); }
                }
                break;
            }
            case Instruction::InsertValue: {
                auto *e = cast<InsertValueInst>(&I);
                d.a = op(e->getAggregateOperand());
                d.b = op(e->getInsertedValueOperand());
                Type *tt = e->getType();
                d.k = 0;
                for (unsigned ix : e->indices()) {
                    if (auto *stt = dyn_cast<StructType>(tt)) {
                        for (unsigned j = 0; j < ix; j++) d.k += ti(stt->getElementType(j))->l.size();
                        tt = stt->getElementType(ix);
                    } else { tt = cast<ArrayType>(tt)->getElementType(); d.k += ix * ti(tt)->l.size(); }
                }
                d.w2 = 0;
                d.t1 = ti(e->getInsertedValueOperand()->getType())->l.size();
                break;
            }
            default:
                if (I.getNumOperands() > 0 && !isa<LandingPadInst>(I)) {
                    if (I.getNumOperands() >= 1) d.a = op(I.getOperand(0));
                    if (I.getNumOperands() >= 2) d.b = op(I.getOperand(1));
                    if (I.getNumOperands() >= 3) d.c = op(I.getOperand(2));
                    auto &l = ti(I.getOperand(0)->getType())->l;
                    d.w2 = l.empty() ? 0 : l[0].w;
                }
                if (isa<LandingPadInst>(I)) d.op = Instruction::LandingPad;
                break;
            }
            D->ins.push_back(std::move(d));
        }
        D->blocks.push_back(bs);
    }
    return D;
}

// -------------------------------------------------------------------- values
static inline Val &rd(Frame &f, DOp o, uint32_t i = 0) { return o.s >= 0 ? f.r[o.s + i] : f.f->consts[-(o.s + 1) + i]; }

static Val binOp(Op op, unsigned w, const Val &a, const Val &b) {
    if (!a.e && !b.e) return Val(evalOp(op, w, 0, w, a.c, b.c, 0));
    return toV(mkBin(op, toE(a, w), toE(b, w)));
}
static Val cmpOp(Op op, unsigned w, const Val &a, const Val &b) {
    if (!a.e && !b.e) return Val(evalOp(op, 1, 0, w, a.c, b.c, 0));
    return toV(mkCmp(op, toE(a, w), toE(b, w)));
}
static Val fpOp(Op op, unsigned w, unsigned wa, const Val &a, const Val &b) {
    if (!a.e && !b.e) return Val(evalOp(op, w, 0, wa, a.c, b.c, 0));
    return toV(mkFP(op, w, toE(a, wa), toE(b, wa)));
}
static Val fp1(Op op, unsigned w, unsigned wa, const Val &a, int aux = 0) {
    if (!a.e) return Val(evalOp(op, w, aux, wa, a.c, 0, 0));
    return toV(mkFP(op, w, toE(a, wa), nullptr, nullptr, aux));
}
static Val notV(const Val &a) { return a.e ? toV(mkNot(a.e)) : Val(a.c ^ 1); }
static Val iteV(const Val &c, unsigned w, const Val &a, const Val &b) {
    if (!c.e) return c.c ? a : b;
    return toV(mkIte(c.e, toE(a, w), toE(b, w)));
}
static Val fnegV(unsigned w, const Val &a) {
    if (!a.e) return Val(a.c ^ (1ull << (w - 1)));
    if (a.e->op == ODyadic) return toV(mkFP(OFSub, w, mkConst(w, 1ull << (w - 1)), a.e));
    return toV(mkBin(OXor, a.e, mkConst(w, 1ull << (w - 1))));
}
static Val fabsV(unsigned w, const Val &a) {
    if (!a.e) return Val(a.c & ~(1ull << (w - 1)));
    if (a.e->op == ODyadic) {
        E k = a.e->a, z = mkConst(64, 0);
        if (k->slo >= 0) return a;
        return toV(mkDyadic(w, mkIte(mkCmp(OSlt, k, z), mkBin(OSub, z, k), k), a.e->aux));
    }
    return toV(mkBin(OAnd, a.e, mkConst(w, maskw(w) >> 1)));
}
static Val fcmpV(unsigned pred, unsigned w, const Val &a, const Val &b) {
    auto LT = [&](const Val &x, const Val &y) { return fpOp(OFLt, 1, w, x, y); };
    auto LE = [&](const Val &x, const Val &y) { return fpOp(OFLe, 1, w, x, y); };
    auto NAN_ = [&](const Val &x) { return fp1(OFIsNaN, 1, w, x); };
    switch (pred) {
    case CmpInst::FCMP_FALSE: return Val((uint64_t)0);
    case CmpInst::FCMP_TRUE: return Val((uint64_t)1);
    case CmpInst::FCMP_OEQ: return fpOp(OFEq, 1, w, a, b);
    case CmpInst::FCMP_UNE: return notV(fpOp(OFEq, 1, w, a, b));
    case CmpInst::FCMP_OLT: return LT(a, b);
    case CmpInst::FCMP_OLE: return LE(a, b);
    case CmpInst::FCMP_OGT: return LT(b, a);
    case CmpInst::FCMP_OGE: return LE(b, a);
    case CmpInst::FCMP_UGE: return notV(LT(a, b));
    case CmpInst::FCMP_UGT: return notV(LE(a, b));
    case CmpInst::FCMP_ULE: return notV(LT(b, a));
    case CmpInst::FCMP_ULT: return notV(LE(b, a));
    case CmpInst::FCMP_ONE: return binOp(OOr, 1, LT(a, b), LT(b, a));
    case CmpInst::FCMP_UEQ: return notV(binOp(OOr, 1, LT(a, b), LT(b, a)));
    case CmpInst::FCMP_ORD: return binOp(OAnd, 1, notV(NAN_(a)), notV(NAN_(b)));
    case CmpInst::FCMP_UNO: return binOp(OOr, 1, NAN_(a), NAN_(b));
    }
    abort();
}
static Val icmpV(unsigned pred, unsigned w, const Val &a, const Val &b) {
    switch (pred) {
    case CmpInst::ICMP_EQ: return cmpOp(OEq, w, a, b);
    case CmpInst::ICMP_NE: return notV(cmpOp(OEq, w, a, b));
    case CmpInst::ICMP_ULT: return cmpOp(OUlt, w, a, b);
    case CmpInst::ICMP_ULE: return cmpOp(OUle, w, a, b);
    case CmpInst::ICMP_UGT: return cmpOp(OUlt, w, b, a);
    case CmpInst::ICMP_UGE: return cmpOp(OUle, w, b, a);
    case CmpInst::ICMP_SLT: return cmpOp(OSlt, w, a, b);
    case CmpInst::ICMP_SLE: return cmpOp(OSle, w, a, b);
    case CmpInst::ICMP_SGT: return cmpOp(OSlt, w, b, a);
    case CmpInst::ICMP_SGE: return cmpOp(OSle, w, b, a);
    }
    abort();
}

static void gotoBlock(State &s, int target) {
    Frame &f = s.top();
    DFunc *D = f.f;
    uint32_t prev = f.bb;
    f.prev = prev;
    f.bb = target;
    auto &B = D->blocks[target];
    if (B.nphi) {
        static std::vector<Val> tmp;
        tmp.clear();
        for (uint32_t i = 0; i < B.nphi; i++) {
            DInst &p = D->ins[B.first + i];
            size_t j = 0;
            while (j < p.sc.size() && p.sc[j] != (int64_t)prev) j++;
            for (uint32_t k = 0; k < p.n; k++) tmp.push_back(rd(f, p.ops[j], k));
        }
        size_t q = 0;
        for (uint32_t i = 0; i < B.nphi; i++) {
            DInst &p = D->ins[B.first + i];
            for (uint32_t k = 0; k < p.n; k++) f.r[p.dst + k] = tmp[q++];
        }
    }
    f.pc = B.first + B.nphi;
}

static void ompFrameEnd(State &s, int kind);
static bool ompThreadEnd(State &s);
static void popFrame(State &s) {
    uint64_t mark = s.fr.back()->stackMark;
    if (s.stk().n > mark) s.stk().truncate(mark);
    uint8_t oe = s.fr.back()->ompEnd;
    s.fr.pop_back();
    if (oe) ompFrameEnd(s, oe);
}

// advance past a call instruction that has completed
static void finishCall(State &s) {
    Frame &f = s.top();
    DInst &d = f.f->ins[f.pc];
    if (d.I->getOpcode() == Instruction::Invoke) gotoBlock(s, d.t1);
    else f.pc++;
}

static void pushCall(State &s, Function *fn, std::vector<Val> &args, DInst *site) {
    if (s.fr.size() > 400) { report(s, "stack", "recursion too deep", s.as); throw PathEnd(); }
    DFunc *D = decode(fn);
    D->calls++;
    usedFuncs.insert(D);
    auto f = std::make_shared<Frame>();
    f->f = D;
    f->r.resize(D->nregs);
    uint32_t total = 0;
    for (auto &a : D->args) total += a.second;
    for (uint32_t i = 0; i < total && i < args.size(); i++) f->r[i] = args[i];
    f->stackMark = s.stk().n;
    if (fn->isVarArg() && site) {
        auto *cb = cast<CallBase>(site->I);
        uint32_t pos = 0;
        for (unsigned i = 0; i < cb->arg_size(); i++) {
            uint32_t n = (uint32_t)site->sc[i];
            if (i >= fn->arg_size())
                for (uint32_t k = 0; k < n; k++) {
                    f->va.push_back(args[pos + k]);
                    f->vaFP.push_back(cb->getArgOperand(i)->getType()->isFloatingPointTy());
                }
            pos += n;
        }
    }
    f->bb = 0;
    f->pc = 0;
    s.fr.push_back(f);
    gRedirect = true;
}

// ---------------------------------------------------------------- exceptions
static GlobalVariable *gvAt(uint64_t addr) {
    if (addr < GLOBB || addr >= FUNCB) return nullptr;
    uint64_t id = (addr - GLOBB) / SLOT;
    if (id >= gSlot.size() || gSlot[id] == ~0u) return nullptr;
    return gList[gSlot[id]];
}
static bool typeMatches(uint64_t thrown, uint64_t want, int d = 0) {
    if (!want || thrown == want) return true;
    GlobalVariable *t = gvAt(thrown), *w = gvAt(want);
    if (!t || !w) return false;
    if (t->getName() == w->getName()) return true;
    if (d > 8 || !t->hasInitializer()) return false;
    auto *init = dyn_cast<ConstantStruct>(t->getInitializer());
    if (!init) return false;
    unsigned n = init->getNumOperands();
    for (unsigned i = 2; i < n; i++) {
        auto *b = init->getOperand(i)->stripPointerCasts();
        if (auto *bg = dyn_cast<GlobalVariable>(b))
            if (typeMatches(gBaseOf(bg), want, d + 1)) return true;
    }
    return false;
}
static std::vector<uint64_t> typeIds;
static int typeIdOf(uint64_t addr) {
    for (size_t i = 0; i < typeIds.size(); i++) if (typeIds[i] == addr) return i + 1;
    typeIds.push_back(addr);
    return typeIds.size();
}
static std::string typeName(uint64_t t) { auto *g = gvAt(t); return g ? demang(g->getName().str()) : "?"; }

static void unwind(State &s) {
    gRedirect = true;
    // current frame is the one whose callee threw (pc at call), find landing pad
    // search phase: is there any handler?
    while (!s.fr.empty()) {
        Frame &f = *s.fr.back();
        DInst &d = f.f->ins[f.pc];
        if (d.I->getOpcode() == Instruction::Invoke && (d.op == XCall || d.op == XIntrin)) {
            Frame &t = s.top();
            BasicBlock *lpb = cast<InvokeInst>(d.I)->getUnwindDest();
            auto *lp = lpb->getLandingPadInst();
            uint64_t sel = 0;
            bool take = lp->isCleanup();
            for (unsigned i = 0; i < lp->getNumClauses(); i++) {
                if (lp->isCatch(i)) {
                    uint64_t w = constAddr(lp->getClause(i));
                    if (typeMatches(s.excType, w)) { sel = w ? typeIdOf(w) : typeIdOf(0); take = true; break; }
                } else { // filter
                    auto *arr = lp->getClause(i);
                    bool ok = false;
                    std::vector<Val> v;
                    constVals(arr, v);
                    for (auto &x : v) if (typeMatches(s.excType, x.c)) ok = true;
                    if (!ok) { sel = (uint64_t)-1; take = true; break; }
                }
            }
            if (take) {
                (void)t;
                gotoBlock(s, d.t2);
                Frame &g = s.top();
                DInst &li = g.f->ins[g.pc];
                if (li.op != Instruction::LandingPad) unsupported(s, "landingpad expected");
                g.r[li.dst] = Val(s.excPtr);
                g.r[li.dst + 1] = Val(sel & 0xffffffff);
                g.pc++;
                return;
            }
        }
        if (s.fr.size() == 1) {
            report(s, "exception", "uncaught exception " + typeName(s.excType), s.as);
            throw PathEnd();
        }
        popFrame(s);
    }
}

static uint64_t needC(State &s, std::vector<Val> &a, size_t i) {
    if (a[i].e) {
        uint64_t c = concretize(s, a[i], a[i].e->w);
        a[i] = Val(c);
    }
    return a[i].c;
}
static E boolE(const Val &v) { // non-zero test
    if (v.e->w == 1) return v.e;
    return mkNot(mkCmp(OEq, v.e, mkConst(v.e->w, 0)));
}
static void checkTaint(State &s, E e, const char *what) {
    if (e->taint && optUninit) {
        // is the outcome really dependent on the uninitialised bytes? both outcomes possible while
        // everything else is fixed?
        E sub = e;
        Assign a1 = s.as, a2;
        bool c0 = evalE(e, s.as) & 1;
        // look for assignment differing only in uninit variables giving the other outcome
        std::vector<E> q{c0 ? mkNot(sub) : sub};
        for (auto v : *e->vars)
            if (!cx->vars[v].uninit) q.push_back(mkCmp(OEq, cx->vars[v].e, mkConst(cx->vars[v].w, s.as.get(v))));
        for (auto c : s.cons) q.push_back(c);
        a2 = s.as;
        if (solver.check(q, a2) == 1) report(s, "uninit", std::string(what) + " depends on uninitialised memory", s.as);
    }
}

static void doIntrinsic(State &s, DInst &d);
static void execCall(State &s, DInst &d);

static void gatherArgs(Frame &f, DInst &d, std::vector<Val> &args) {
    args.clear();
    for (size_t i = 0; i < d.ops.size(); i++)
        for (int64_t k = 0; k < d.sc[i]; k++) args.push_back(rd(f, d.ops[i], (uint32_t)k));
}

static void divCheck(State &s, unsigned w, const Val &b) {
    if (!b.e) {
        if (b.c == 0) { report(s, "arith", "division by zero", s.as); throw PathEnd(); }
        return;
    }
    E z = mkCmp(OEq, b.e, mkConst(w, 0));
    if (z->op == OConst) return;
    if (holdsNow(s, z)) {
        Assign o;
        if (feasible(s, mkNot(z), o) == 1) {
            StateP n = cloneState(s);
            addCons(*n, mkNot(z));
            n->as = o;
            work.push_back(std::move(n));
        }
        report(s, "arith", "division by zero", s.as);
        throw PathEnd();
    }
    assumeTrueForkOther(s, mkNot(z));
}

static u128 wide(Frame &f, DOp o, unsigned bits) {
    Val &a = rd(f, o, 0);
    u128 r = a.c;
    if (bits > 64) r |= (u128)rd(f, o, 1).c << 64;
    return r;
}

struct AtomicScope { AtomicScope() { gAtomic = true; } ~AtomicScope() { gAtomic = false; } };
// Execute one instruction.
static void step(State &s) {
    Frame &f = s.top();
    DInst &d = f.f->ins[f.pc];
    s.icount++;
    st.insts++;
    switch (d.op) {
    case XBr: gotoBlock(s, d.t1); return;
    case XCondBr: {
        Val &c = rd(f, d.a);
        if (!c.e) { gotoBlock(s, c.c & 1 ? d.t1 : d.t2); return; }
        E e = c.e;
        checkTaint(s, e, "branch");
        st.branches++;
        bool v = holdsNow(s, e);
        E taken = v ? e : mkNot(e), other = v ? mkNot(e) : e;
        Assign o;
        int r = feasible(s, other, o);
        if (r == 1) {
            StateP n = cloneState(s);
            addCons(*n, other);
            n->as = o;
            gotoBlock(*n, v ? d.t2 : d.t1);
            work.push_back(std::move(n));
            addCons(s, taken);
        } else if (r < 0) addCons(s, taken);
        gotoBlock(s, v ? d.t1 : d.t2);
        return;
    }
    case Instruction::Switch: {
        Val c = rd(f, d.a);
        auto &mp = *(std::vector<std::pair<uint64_t, int>> *)d.ex;
        uint64_t cv = c.e ? evalE(c.e, s.as) : c.c;
        int tgt = d.t1;
        for (auto &p : mp) if (p.first == cv) { tgt = p.second; break; }
        if (c.e) {
            checkTaint(s, mkCmp(OEq, c.e, mkConst(d.w, cv)), "switch");
            E cond = mkConst(1, tgt == d.t1);
            for (auto &p : mp) {
                E q = mkCmp(OEq, c.e, mkConst(d.w, p.first));
                if (tgt == d.t1) { if (p.second != d.t1) cond = mkBin(OAnd, cond, mkNot(q)); }
                else if (p.second == tgt) cond = mkBin(OOr, cond, q);
            }
            assumeTrueForkOther(s, cond);
        }
        gotoBlock(s, tgt);
        return;
    }
    case Instruction::Ret: {
        std::vector<Val> rv;
        auto *ri = cast<ReturnInst>(d.I);
        if (ri->getReturnValue()) {
            uint32_t n = ti(ri->getReturnValue()->getType())->l.size();
            for (uint32_t i = 0; i < n; i++) rv.push_back(rd(f, d.a, i));
        }
        popFrame(s);
        if (s.fr.empty()) { if (ompThreadEnd(s)) return; throw PathEnd(); }
        Frame &c = s.top();
        DInst &ci = c.f->ins[c.pc];
        for (uint32_t i = 0; i < ci.n && i < rv.size(); i++) c.r[ci.dst + i] = rv[i];
        finishCall(s);
        return;
    }
    case XGep: {
        Val p = rd(f, d.a);
        Val off((uint64_t)d.k);
        for (size_t i = 0; i < d.ops.size(); i++) {
            Val ix = rd(f, d.ops[i]);
            unsigned w = (unsigned)d.sc[2 * i + 1];
            if (w < 64) { if (ix.e) ix = toV(mkSExt(ix.e, 64)); else ix.c = (uint64_t)sx(ix.c, w); }
            Val m = binOp(OMul, 64, ix, Val((uint64_t)d.sc[2 * i]));
            off = binOp(OAdd, 64, off, m);
        }
        f.r[d.dst] = binOp(OAdd, 64, p, off);
        break;
    }
    case XLoad: {
        Val a = rd(f, d.a);
        if (d.n == 1) {
            auto &l = d.t->l[0];
            gAtomic = d.k != 0;
            Val v = loadLeaf(s, a, l.bytes, l.w);
            gAtomic = false;
            s.top().r[d.dst] = v;
        } else {
            if (a.e) a = Val(concretize(s, a, 64));
            for (uint32_t i = 0; i < d.n; i++) {
                auto &l = d.t->l[i];
                Val v = loadLeaf(s, Val(a.c + l.off), l.bytes, l.w);
                s.top().r[d.dst + i] = v;
            }
        }
        break;
    }
    case XStore: {
        Val a = rd(f, d.a);
        if (d.n > 1 && a.e) a = Val(concretize(s, a, 64));
        for (uint32_t i = 0; i < d.n; i++) {
            auto &l = d.t->l[i];
            Val v = rd(f, d.b, i);
            if (v.e && v.e->w != l.bytes * 8) v = toV(mkZExt(v.e, l.bytes * 8));
            gAtomic = d.k != 0;
            if (d.n > 1) storeLeaf(s, Val(a.c + l.off), l.bytes, v);
            else storeLeaf(s, a, l.bytes, v);
            gAtomic = false;
        }
        break;
    }
    case Instruction::Alloca: {
        Val nv = rd(f, d.a);
        uint64_t n = nv.e ? concretize(s, nv, d.w2) : nv.c;
        f.r[d.dst] = Val(stackAlloc(s, n * d.k));
        break;
    }
    case XCall: execCall(s, d); return;
    case XIntrin: doIntrinsic(s, d); return;
    case Instruction::Unreachable:
        report(s, "unreachable", "unreachable code executed", s.as);
        throw PathEnd();
    case Instruction::Resume: {
        s.excPtr = rd(f, d.a, 0).c;
        popFrame(s);
        if (s.fr.empty()) { throw PathEnd(); }
        unwind(s);
        return;
    }
    case Instruction::Select: {
        uint32_t nc = ti(d.I->getOperand(0)->getType())->l.size();
        if (d.n == 1 && nc == 1 && d.I->getType()->isPointerTy()) {
            Val c = rd(f, d.a), x = rd(f, d.b), y = rd(f, d.c);
            if (c.e && !x.e && !y.e && x.c != y.c && findObj(s, x.c) != findObj(s, y.c)) {
                // pointers into different objects: one path each
                bool v = evalE(c.e, s.as);
                assumeTrueForkOther(s, v ? c.e : mkNot(c.e));
                s.top().r[d.dst] = v ? x : y;
                break;
            }
        }
        for (uint32_t i = 0; i < d.n; i++) {
            Val c = rd(f, d.a, nc > 1 ? i : 0);
            f.r[d.dst + i] = iteV(c, d.t->l[i].w, rd(f, d.b, i), rd(f, d.c, i));
        }
        break;
    }
    case Instruction::ICmp: {
        unsigned p = cast<ICmpInst>(d.I)->getPredicate();
        Type *ot = d.I->getOperand(0)->getType();
        if (ot->isIntegerTy() && ot->getIntegerBitWidth() > 64) {
            unsigned W = ot->getIntegerBitWidth();
            for (int k = 0; k < 2; k++) if (rd(f, d.a, k).e || rd(f, d.b, k).e) {
                if (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE) {
                    Val r = binOp(OAnd, 1, cmpOp(OEq, 64, rd(f, d.a, 0), rd(f, d.b, 0)), cmpOp(OEq, W - 64, rd(f, d.a, 1), rd(f, d.b, 1)));
                    f.r[d.dst] = p == CmpInst::ICMP_EQ ? r : notV(r);
                    f.pc++;
                    return;
                }
                unsupported(s, "symbolic i128");
            }
            u128 a = wide(f, d.a, W), b = wide(f, d.b, W);
            __int128 sa = (__int128)a, sb = (__int128)b;
            if (W < 128) { sa = (__int128)(a << (128 - W)) >> (128 - W); sb = (__int128)(b << (128 - W)) >> (128 - W); }
            bool r = false;
            switch (p) {
            case CmpInst::ICMP_EQ: r = a == b; break;
            case CmpInst::ICMP_NE: r = a != b; break;
            case CmpInst::ICMP_ULT: r = a < b; break;
            case CmpInst::ICMP_ULE: r = a <= b; break;
            case CmpInst::ICMP_UGT: r = a > b; break;
            case CmpInst::ICMP_UGE: r = a >= b; break;
            case CmpInst::ICMP_SLT: r = sa < sb; break;
            case CmpInst::ICMP_SLE: r = sa <= sb; break;
            case CmpInst::ICMP_SGT: r = sa > sb; break;
            case CmpInst::ICMP_SGE: r = sa >= sb; break;
            }
            f.r[d.dst] = Val((uint64_t)r);
            break;
        }
        for (uint32_t i = 0; i < d.n; i++) f.r[d.dst + i] = icmpV(p, d.w2, rd(f, d.a, i), rd(f, d.b, i));
        break;
    }
    case Instruction::FCmp: {
        unsigned p = cast<FCmpInst>(d.I)->getPredicate();
        for (uint32_t i = 0; i < d.n; i++) f.r[d.dst + i] = fcmpV(p, d.w2, rd(f, d.a, i), rd(f, d.b, i));
        break;
    }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
    case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        Type *ot = d.I->getType();
        if (ot->isIntegerTy() && ot->getIntegerBitWidth() > 64) {
            unsigned W = ot->getIntegerBitWidth();
            if (rd(f, d.a, 0).e || rd(f, d.a, 1).e || rd(f, d.b, 0).e || rd(f, d.b, 1).e || W > 128) {
                if (d.op == Instruction::Shl && !rd(f, d.b, 0).e && rd(f, d.b, 0).c == 64) { f.r[d.dst + 1] = rd(f, d.a, 0); f.r[d.dst] = Val((uint64_t)0); break; }
                if (d.op == Instruction::LShr && !rd(f, d.b, 0).e && rd(f, d.b, 0).c == 64) { f.r[d.dst] = rd(f, d.a, 1); f.r[d.dst + 1] = Val((uint64_t)0); break; }
                if (d.op == Instruction::Or || d.op == Instruction::And || d.op == Instruction::Xor) {
                    Op o = d.op == Instruction::Or ? OOr : d.op == Instruction::And ? OAnd : OXor;
                    for (unsigned k = 0; k < d.n; k++) f.r[d.dst + k] = binOp(o, d.t->l[k].w, rd(f, d.a, k), rd(f, d.b, k));
                    break;
                }
                unsupported(s, "symbolic i128 arithmetic");
            }
            u128 a = wide(f, d.a, W), b = wide(f, d.b, W), r = 0;
            u128 m = W == 128 ? ~(u128)0 : (((u128)1 << W) - 1);
            switch (d.op) {
            case Instruction::Add: r = a + b; break;
            case Instruction::Sub: r = a - b; break;
            case Instruction::Mul: r = a * b; break;
            case Instruction::UDiv: if (!b) { report(s, "arith", "division by zero", s.as); throw PathEnd(); } r = a / b; break;
            case Instruction::URem: if (!b) { report(s, "arith", "division by zero", s.as); throw PathEnd(); } r = a % b; break;
            case Instruction::SDiv: r = (u128)((__int128)a / (__int128)b); break;
            case Instruction::SRem: r = (u128)((__int128)a % (__int128)b); break;
            case Instruction::And: r = a & b; break;
            case Instruction::Or: r = a | b; break;
            case Instruction::Xor: r = a ^ b; break;
            case Instruction::Shl: r = b >= W ? 0 : a << (unsigned)b; break;
            case Instruction::LShr: r = b >= W ? 0 : a >> (unsigned)b; break;
            case Instruction::AShr: r = (u128)(((__int128)(a << (128 - W)) >> (128 - W)) >> (unsigned)b); break;
            }
            r &= m;
            f.r[d.dst] = Val((uint64_t)r);
            f.r[d.dst + 1] = Val((uint64_t)(r >> 64));
            break;
        }
        static const Op map[] = {OAdd, OAdd, OSub, OSub, OMul, OMul, OUDiv, OSDiv, OFDiv, OURem, OSRem, OFRem, OShl, OLShr, OAShr, OAnd, OOr, OXor};
        Op o = map[d.op - Instruction::Add];
        if (o == OUDiv || o == OSDiv || o == OURem || o == OSRem)
            for (uint32_t i = 0; i < d.n; i++) { Val b = rd(f, d.b, i); divCheck(s, d.w, b); }
        {
            Frame &f2 = s.top();
            for (uint32_t i = 0; i < d.n; i++) f2.r[d.dst + i] = binOp(o, d.w, rd(f2, d.a, i), rd(f2, d.b, i));
        }
        break;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        Op o = d.op == Instruction::FAdd ? OFAdd : d.op == Instruction::FSub ? OFSub : d.op == Instruction::FMul ? OFMul : d.op == Instruction::FDiv ? OFDiv : OFRem;
        if (d.w == 16) unsupported(s, "half arithmetic");
        for (uint32_t i = 0; i < d.n; i++) f.r[d.dst + i] = fpOp(o, d.w, d.w, rd(f, d.a, i), rd(f, d.b, i));
        break;
    }
    case Instruction::FNeg:
        for (uint32_t i = 0; i < d.n; i++) f.r[d.dst + i] = fnegV(d.w, rd(f, d.a, i));
        break;
    case Instruction::Trunc: {
        Type *ot = d.I->getOperand(0)->getType();
        if (ot->isIntegerTy() && ot->getIntegerBitWidth() > 64) {
            for (uint32_t i = 0; i < d.n; i++) {
                Val v = rd(f, d.a, i);
                unsigned w = d.t->l[i].w;
                if (v.e) v = toV(mkExtract(v.e, 0, std::min<unsigned>(w, v.e->w))); else v.c &= maskw(w);
                f.r[d.dst + i] = v;
            }
            break;
        }
        for (uint32_t i = 0; i < d.n; i++) {
            Val v = rd(f, d.a, i);
            f.r[d.dst + i] = v.e ? toV(mkExtract(v.e, 0, d.w)) : Val(v.c & maskw(d.w));
        }
        break;
    }
    case Instruction::ZExt: case Instruction::SExt: {
        Type *rt = d.I->getType();
        if (rt->isIntegerTy() && rt->getIntegerBitWidth() > 64) {
            Type *ot = d.I->getOperand(0)->getType();
            unsigned ow = ot->getIntegerBitWidth();
            if (ow > 64) unsupported(s, "wide ext");
            Val v = rd(f, d.a);
            bool sg = d.op == Instruction::SExt;
            Val lo = v.e ? toV(sg ? mkSExt(v.e, 64) : mkZExt(v.e, 64)) : Val(sg ? (uint64_t)sx(v.c, ow) : v.c);
            Val hi((uint64_t)0);
            if (sg) hi = binOp(OAShr, 64, lo, Val((uint64_t)63));
            f.r[d.dst] = lo;
            for (uint32_t k = 1; k < d.n; k++) {
                unsigned w = d.t->l[k].w;
                f.r[d.dst + k] = hi.e ? toV(mkExtract(hi.e, 0, w)) : Val(hi.c & maskw(w));
            }
            break;
        }
        for (uint32_t i = 0; i < d.n; i++) {
            Val v = rd(f, d.a, i);
            if (d.op == Instruction::ZExt) f.r[d.dst + i] = v.e ? toV(mkZExt(v.e, d.w)) : v;
            else f.r[d.dst + i] = v.e ? toV(mkSExt(v.e, d.w)) : Val((uint64_t)sx(v.c, d.w2) & maskw(d.w));
        }
        break;
    }
    case Instruction::FPTrunc: case Instruction::FPExt: {
        unsigned wi = d.w2, wo = d.w;
        for (uint32_t i = 0; i < d.n; i++) {
            Val v = rd(f, d.a, i);
            if (wi == wo) { f.r[d.dst + i] = v; continue; }
            if (wi == 16 || wo == 16) {
                if (v.e) unsupported(s, "symbolic half conversion");
                if (wi == 16) {
                    uint16_t u = (uint16_t)v.c; _Float16 h; memcpy(&h, &u, 2);
                    f.r[d.dst + i] = Val(wo == 32 ? f2b((float)h) : d2b((double)h));
                } else {
                    _Float16 h = wi == 32 ? (_Float16)b2f(v.c) : (_Float16)b2d(v.c);
                    uint16_t u; memcpy(&u, &h, 2);
                    f.r[d.dst + i] = Val((uint64_t)u);
                }
                continue;
            }
            f.r[d.dst + i] = fp1(d.op == Instruction::FPExt ? OFExt : OFTruncW, wo, wi, v);
        }
        break;
    }
    case Instruction::SIToFP: case Instruction::UIToFP: {
        for (uint32_t i = 0; i < d.n; i++) {
            Val v = rd(f, d.a, i);
            Type *ot = d.I->getOperand(0)->getType();
            if (ot->isIntegerTy() && ot->getIntegerBitWidth() > 64) {
                if (v.e) unsupported(s, "i128 to fp");
                u128 x = wide(f, d.a, 128);
                f.r[d.dst] = Val(fpb(d.w, (double)x));
                continue;
            }
            f.r[d.dst + i] = v.e ? toV(mkFP(d.op == Instruction::SIToFP ? OSIToF : OUIToF, d.w, v.e)) : Val(evalOp(d.op == Instruction::SIToFP ? OSIToF : OUIToF, d.w, 0, d.w2, v.c, 0, 0));
        }
        break;
    }
    case Instruction::FPToSI: case Instruction::FPToUI:
        for (uint32_t i = 0; i < d.n; i++) f.r[d.dst + i] = fp1(d.op == Instruction::FPToSI ? OFToSI : OFToUI, d.w, d.w2, rd(f, d.a, i));
        break;
    case Instruction::PtrToInt:
        for (uint32_t i = 0; i < d.n; i++) {
            Val v = rd(f, d.a, i);
            if (d.w < 64) v = v.e ? toV(mkExtract(v.e, 0, d.w)) : Val(v.c & maskw(d.w));
            f.r[d.dst + i] = v;
        }
        break;
    case Instruction::IntToPtr:
        for (uint32_t i = 0; i < d.n; i++) {
            Val v = rd(f, d.a, i);
            if (d.w2 < 64 && v.e) v = toV(mkZExt(v.e, 64));
            f.r[d.dst + i] = v;
        }
        break;
    case Instruction::BitCast: {
        TI *it = ti(d.I->getOperand(0)->getType());
        if (it->l.size() == d.n) {
            for (uint32_t i = 0; i < d.n; i++) f.r[d.dst + i] = rd(f, d.a, i);
            break;
        }
        // lane-width changing cast: go through bits
        unsigned wi = it->l[0].w, wo = d.w;
        if (wi > wo) {
            unsigned k = wi / wo;
            for (uint32_t i = 0; i < d.n; i++) {
                Val v = rd(f, d.a, i / k);
                unsigned lo = (i % k) * wo;
                f.r[d.dst + i] = v.e ? toV(mkExtract(v.e, lo, wo)) : Val((v.c >> lo) & maskw(wo));
            }
        } else {
            unsigned k = wo / wi;
            for (uint32_t i = 0; i < d.n; i++) {
                bool sy = false;
                for (unsigned j = 0; j < k; j++) sy |= rd(f, d.a, i * k + j).e != nullptr;
                if (sy) {
                    E e = toE(rd(f, d.a, i * k), wi);
                    for (unsigned j = 1; j < k; j++) e = mkConcat(toE(rd(f, d.a, i * k + j), wi), e);
                    f.r[d.dst + i] = toV(e);
                } else {
                    uint64_t v = 0;
                    for (unsigned j = 0; j < k; j++) v |= rd(f, d.a, i * k + j).c << (j * wi);
                    f.r[d.dst + i] = Val(v);
                }
            }
        }
        break;
    }
    case Instruction::Freeze:
        for (uint32_t i = 0; i < d.n; i++) f.r[d.dst + i] = rd(f, d.a, i);
        break;
    case Instruction::ExtractValue:
        for (uint32_t i = 0; i < d.n; i++) f.r[d.dst + i] = rd(f, d.a, (uint32_t)d.k + i);
        break;
    case Instruction::InsertValue:
        for (uint32_t i = 0; i < d.n; i++) {
            bool in = (int64_t)i >= d.k && (int64_t)i < d.k + d.t1;
            f.r[d.dst + i] = in ? rd(f, d.b, i - (uint32_t)d.k) : rd(f, d.a, i);
        }
        break;
    case Instruction::ExtractElement: {
        Val ix = rd(f, d.b);
        if (ix.e) ix = Val(concretize(s, ix, ix.e->w));
        s.top().r[d.dst] = rd(s.top(), d.a, (uint32_t)ix.c);
        break;
    }
    case Instruction::InsertElement: {
        Val ix = rd(f, d.c);
        if (ix.e) ix = Val(concretize(s, ix, ix.e->w));
        Frame &f2 = s.top();
        for (uint32_t i = 0; i < d.n; i++) f2.r[d.dst + i] = i == ix.c ? rd(f2, d.b) : rd(f2, d.a, i);
        break;
    }
    case Instruction::ShuffleVector: {
        auto *sv = cast<ShuffleVectorInst>(d.I);
        auto mask = sv->getShuffleMask();
        uint32_t n0 = ti(sv->getOperand(0)->getType())->l.size();
        std::vector<Val> o;
        for (int m : mask) o.push_back(m < 0 ? Val((uint64_t)0) : (uint32_t)m < n0 ? rd(f, d.a, m) : rd(f, d.b, m - n0));
        for (uint32_t i = 0; i < d.n; i++) f.r[d.dst + i] = o[i];
        break;
    }
    case Instruction::Fence: break;
    case Instruction::AtomicRMW: {
        AtomicScope as_;
        auto *rmw = cast<AtomicRMWInst>(d.I);
        Val a = rd(f, d.a), v = rd(f, d.b);
        auto &l = ti(rmw->getValOperand()->getType())->l[0];
        Val old = loadLeaf(s, a, l.bytes, l.w), nw;
        switch (rmw->getOperation()) {
        case AtomicRMWInst::Xchg: nw = v; break;
        case AtomicRMWInst::Add: nw = binOp(OAdd, l.w, old, v); break;
        case AtomicRMWInst::Sub: nw = binOp(OSub, l.w, old, v); break;
        case AtomicRMWInst::And: nw = binOp(OAnd, l.w, old, v); break;
        case AtomicRMWInst::Or: nw = binOp(OOr, l.w, old, v); break;
        case AtomicRMWInst::FAdd: nw = fpOp(OFAdd, l.w, l.w, old, v); break;
        default: unsupported(s, "atomicrmw");
        }
        storeLeaf(s, a, l.bytes, nw);
        s.top().r[d.dst] = old;
        break;
    }
    case Instruction::AtomicCmpXchg: {
        AtomicScope as_;
        Val a = rd(f, d.a), ex = rd(f, d.b), nw = rd(f, d.c);
        auto &l = d.t->l[0];
        Val old = loadLeaf(s, a, l.bytes, l.w);
        Val eq = cmpOp(OEq, l.w, old, ex);
        storeLeaf(s, a, l.bytes, iteV(eq, l.w, nw, old));
        s.top().r[d.dst] = old;
        s.top().r[d.dst + 1] = eq;
        break;
    }
    default: {
        std::string str;
        raw_string_ostream os(str);
        os << *d.I;
        unsupported(s, "instruction " + str);
    }
    }
    s.top().pc++;
}

static void execCall(State &s, DInst &d) {
    static std::vector<Val> args;
    Frame &f = s.top();
    if (d.k == -1) { // inline asm: ignore (empty barriers)
        for (uint32_t i = 0; i < d.n; i++) f.r[d.dst + i] = Val((uint64_t)0);
        finishCall(s);
        return;
    }
    Function *fn = (Function *)d.ex;
    if (!fn) {
        Val p = rd(f, d.a);
        uint64_t a = p.e ? concretize(s, p, 64) : p.c;
        if (a <= FUNCB || a > FUNCB + fList.size() * 16 || (a & 15)) {
            report(s, "memory", a < 65536 ? "call through null pointer" : "call through bad pointer", s.as);
            throw PathEnd();
        }
        fn = fList[(a - FUNCB) / 16 - 1];
    }
    gatherArgs(s.top(), d, args);
    Builtin b = builtinFor(fn);
    if (b) {
        static std::vector<Val> ret;
        ret.clear();
        gRedirect = false;
        b(s, d, args, ret);
        // a builtin may have redirected control (call, throw, thread switch)
        if (gRedirect) return;
        Frame &g = s.top();
        for (uint32_t i = 0; i < d.n; i++) g.r[d.dst + i] = i < ret.size() ? ret[i] : Val((uint64_t)0);
        finishCall(s);
        return;
    }
    if (fn->isDeclaration()) unsupported(s, "external function " + demang(fn->getName().str()));
    std::vector<Val> copy(args);
    pushCall(s, fn, copy, &d);
}

// ---------------------------------------------------------------- intrinsics
static void doMemcpy(State &s, uint64_t dst, uint64_t src, uint64_t n) { copyBytes(s, dst, src, n); }
static void doMemset(State &s, uint64_t dst, const Val &v, uint64_t n) {
    if (!n) return;
    const ObjP *p = resolveC(s, dst, 1, true);
    if (dst + n > (*p)->base + (*p)->size) memError(s, dst, (unsigned)n, true, p);
    if (s.team && ompPar(s)) { ompNote(s, Val(dst), n, true, false); p = findObj(s, dst); }
    Obj &o = writable(s, p);
    uint64_t off = dst - o.base;
    for (uint64_t i = 0; i < n; i++) writeN(s, o, off + i, 1, v);
}
static void throwNamed(State &s, const char *fn);

static void doIntrinsic(State &s, DInst &d) {
    Frame &f = s.top();
    auto A = [&](int i, uint32_t k = 0) -> Val & { return rd(s.top(), d.ops[i], k); };
    auto set = [&](const Val &v, uint32_t k = 0) { s.top().r[d.dst + k] = v; };
    unsigned w = d.w;
    uint32_t n = d.n;
    (void)f;
    switch (d.k) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::var_annotation: case Intrinsic::stackrestore:
    case Intrinsic::vaend: case Intrinsic::sideeffect:
        if (n) set(Val((uint64_t)0));
        break;
    case Intrinsic::stacksave: set(Val((uint64_t)0)); break;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy:
        set(A(0));
        break;
    case Intrinsic::is_constant: set(Val((uint64_t)0)); break;
    case Intrinsic::objectsize: set(Val((uint64_t)-1)); break;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        Val a = A(0), b = A(1), c = A(2);
        uint64_t nn = concretize(s, c, 64);
        uint64_t da = concretize(s, a, 64), sa = concretize(s, b, 64);
        doMemcpy(s, da, sa, nn);
        break;
    }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
        Val a = A(0), b = A(1), c = A(2);
        uint64_t nn = concretize(s, c, 64);
        uint64_t da = concretize(s, a, 64);
        doMemset(s, da, b, nn);
        break;
    }
    case Intrinsic::trap: report(s, "trap", "trap instruction reached", s.as); throw PathEnd();
    case Intrinsic::ubsantrap: {
        static const char *nm[] = {"add-overflow", "builtin-unreachable", "cfi", "divrem-overflow", "dynamic-type", "float-cast-overflow", "function-type", "implicit-conversion", "invalid-builtin", "invalid-objc-cast", "load-invalid-value", "missing-return", "mul-overflow", "negate-overflow", "nullability-arg", "nullability-return", "nonnull-arg", "nonnull-return", "out-of-bounds", "pointer-overflow", "shift-out-of-bounds", "sub-overflow", "type-mismatch", "alignment", "vla-bound"};
        uint64_t k = A(0).c;
        report(s, "ub", k < 25 ? nm[k] : "ub", s.as);
        throw PathEnd();
    }
    case Intrinsic::umin: for (uint32_t i = 0; i < n; i++) set(iteV(cmpOp(OUlt, w, A(0, i), A(1, i)), w, A(0, i), A(1, i)), i); break;
    case Intrinsic::umax: for (uint32_t i = 0; i < n; i++) set(iteV(cmpOp(OUlt, w, A(0, i), A(1, i)), w, A(1, i), A(0, i)), i); break;
    case Intrinsic::smin: for (uint32_t i = 0; i < n; i++) set(iteV(cmpOp(OSlt, w, A(0, i), A(1, i)), w, A(0, i), A(1, i)), i); break;
    case Intrinsic::smax: for (uint32_t i = 0; i < n; i++) set(iteV(cmpOp(OSlt, w, A(0, i), A(1, i)), w, A(1, i), A(0, i)), i); break;
    case Intrinsic::abs:
        for (uint32_t i = 0; i < n; i++) { Val z((uint64_t)0); set(iteV(cmpOp(OSlt, w, A(0, i), z), w, binOp(OSub, w, z, A(0, i)), A(0, i)), i); }
        break;
    case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap: case Intrinsic::bitreverse:
        for (uint32_t i = 0; i < n; i++) {
            Val v = A(0, i);
            if (v.e) {
                if (d.k == Intrinsic::bswap) {
                    E e = nullptr;
                    for (unsigned k = 0; k < w; k += 8) { E by = mkExtract(v.e, k, 8); e = e ? mkConcat(e, by) : by; }
                    set(toV(e), i);
                    continue;
                }
                if (d.k == Intrinsic::ctpop) {
                    E e = mkConst(w, 0);
                    for (unsigned k = 0; k < w; k++) e = mkBin(OAdd, e, mkZExt(mkExtract(v.e, k, 1), w));
                    set(toV(e), i);
                    continue;
                }
                E e = mkConst(w, w);
                if (d.k == Intrinsic::ctlz) { for (unsigned k = 0; k < w; k++) e = mkIte(mkExtract(v.e, k, 1), mkConst(w, w - 1 - k), e); }
                else for (int k = w - 1; k >= 0; k--) e = mkIte(mkExtract(v.e, k, 1), mkConst(w, k), e);
                set(toV(e), i);
                continue;
            }
            uint64_t x = v.c, r = 0;
            if (d.k == Intrinsic::ctpop) r = __builtin_popcountll(x);
            else if (d.k == Intrinsic::ctlz) r = x ? __builtin_clzll(x) - (64 - w) : w;
            else if (d.k == Intrinsic::cttz) r = x ? __builtin_ctzll(x) : w;
            else if (d.k == Intrinsic::bswap) r = __builtin_bswap64(x) >> (64 - w);
            else unsupported(s, "bitreverse");
            set(Val(r), i);
        }
        break;
    case Intrinsic::fshl: case Intrinsic::fshr:
        for (uint32_t i = 0; i < n; i++) {
            Val sh = A(2, i);
            if (sh.e) unsupported(s, "symbolic funnel shift");
            unsigned k = sh.c % w;
            if (d.k == Intrinsic::fshr) k = (w - k) % w;
            if (k == 0) { set(d.k == Intrinsic::fshl ? A(0, i) : A(1, i), i); continue; }
            set(binOp(OOr, w, binOp(OShl, w, A(0, i), Val((uint64_t)k)), binOp(OLShr, w, A(1, i), Val((uint64_t)(w - k)))), i);
        }
        break;
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow:
    case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
        if (w > 64 || n != 2) unsupported(s, "vector overflow op");
        Val a = A(0), b = A(1);
        unsigned aw = d.t->l[0].w;
        Op o = (d.k == Intrinsic::uadd_with_overflow || d.k == Intrinsic::sadd_with_overflow) ? OAdd : (d.k == Intrinsic::usub_with_overflow || d.k == Intrinsic::ssub_with_overflow) ? OSub : OMul;
        bool sg = d.k == Intrinsic::sadd_with_overflow || d.k == Intrinsic::ssub_with_overflow || d.k == Intrinsic::smul_with_overflow;
    again:
        Val r = binOp(o, aw, a, b), ov;
        if (!a.e && !b.e) {
            if (sg) {
                __int128 x = sx(a.c, aw), y = sx(b.c, aw), z = o == OAdd ? x + y : o == OSub ? x - y : x * y;
                ov = Val((uint64_t)(z != (__int128)sx(r.c, aw)));
            } else {
                u128 x = a.c, y = b.c, z = o == OAdd ? x + y : o == OSub ? x - y : x * y;
                ov = Val((uint64_t)(z != (u128)r.c));
            }
        } else {
            E ea = toE(a, aw), eb = toE(b, aw);
            // range based
            __int128 lo, hi;
            __int128 al = sg ? (__int128)ea->slo : (__int128)ea->ulo, ah = sg ? (__int128)ea->shi : (__int128)ea->uhi;
            __int128 bl = sg ? (__int128)eb->slo : (__int128)eb->ulo, bh = sg ? (__int128)eb->shi : (__int128)eb->uhi;
            if (o == OAdd) { lo = al + bl; hi = ah + bh; }
            else if (o == OSub) { lo = al - bh; hi = ah - bl; }
            else {
                __int128 q[4] = {al * bl, al * bh, ah * bl, ah * bh};
                lo = *std::min_element(q, q + 4); hi = *std::max_element(q, q + 4);
                if (!sg) { u128 m = (u128)ah * (u128)bh; if (m >> 126) hi = ((__int128)1 << 126); }
            }
            __int128 mn = sg ? -((__int128)1 << (aw - 1)) : 0, mx = sg ? ((__int128)1 << (aw - 1)) - 1 : ((__int128)1 << aw) - 1;
            if (lo >= mn && hi <= mx) ov = Val((uint64_t)0);
            else if (hi < mn || lo > mx) ov = Val((uint64_t)1);
            else if (aw * 2 <= 64 || o != OMul) {
                if (o == OMul) {
                    unsigned W = aw * 2;
                    E x = sg ? mkSExt(ea, W) : mkZExt(ea, W), y = sg ? mkSExt(eb, W) : mkZExt(eb, W);
                    E z = mkBin(OMul, x, y);
                    E back = sg ? mkSExt(toE(r, aw), W) : mkZExt(toE(r, aw), W);
                    ov = toV(mkNot(mkCmp(OEq, z, back)));
                } else if (!sg) {
                    ov = o == OAdd ? cmpOp(OUlt, aw, r, a) : cmpOp(OUlt, aw, a, b);
                } else {
                    Val z((uint64_t)0);
                    Val sa = cmpOp(OSlt, aw, a, z), sb = cmpOp(OSlt, aw, b, z), sr = cmpOp(OSlt, aw, r, z);
                    if (o == OAdd) ov = binOp(OAnd, 1, notV(binOp(OXor, 1, sa, sb)), binOp(OXor, 1, sa, sr));
                    else ov = binOp(OAnd, 1, binOp(OXor, 1, sa, sb), binOp(OXor, 1, sa, sr));
                }
            } else if (!b.e && !sg && b.c) {
                ov = cmpOp(OUlt, aw, Val(maskw(aw) / b.c), a);
            } else if (!a.e && !sg && a.c) {
                ov = cmpOp(OUlt, aw, Val(maskw(aw) / a.c), b);
            } else if (sg && ((!b.e && sx(b.c, aw) > 0) || (!a.e && sx(a.c, aw) > 0))) {
                Val x = b.e ? b : a;
                int64_t k = sx(b.e ? a.c : b.c, aw);
                int64_t mxv = (int64_t)(maskw(aw) >> 1), mnv = -mxv - 1;
                ov = binOp(OOr, 1, cmpOp(OSlt, aw, Val((uint64_t)(mxv / k) & maskw(aw)), x), cmpOp(OSlt, aw, x, Val((uint64_t)(mnv / k) & maskw(aw))));
            } else if (!a.e || !b.e) unsupported(s, "symbolic mul overflow");
            else {
                // both factors undecided: take the values of one of them one at a time
                __int128 aa = ah - al, bb = bh - bl;
                if (aa <= bb) a = Val(concretize(s, a, aw)); else b = Val(concretize(s, b, aw));
                goto again;
            }
        }
        set(r, 0);
        set(ov, 1);
        break;
    }
    case Intrinsic::usub_sat: for (uint32_t i = 0; i < n; i++) { Val a = A(0, i), b = A(1, i); set(iteV(cmpOp(OUlt, w, a, b), w, Val((uint64_t)0), binOp(OSub, w, a, b)), i); } break;
    case Intrinsic::uadd_sat: for (uint32_t i = 0; i < n; i++) { Val a = A(0, i), b = A(1, i); Val r = binOp(OAdd, w, a, b); set(iteV(cmpOp(OUlt, w, r, a), w, Val(maskw(w)), r), i); } break;
    case Intrinsic::fabs: for (uint32_t i = 0; i < n; i++) set(fabsV(w, A(0, i)), i); break;
    case Intrinsic::sqrt: for (uint32_t i = 0; i < n; i++) set(fp1(OFSqrt, w, w, A(0, i)), i); break;
    case Intrinsic::floor: for (uint32_t i = 0; i < n; i++) set(fp1(OFFloor, w, w, A(0, i)), i); break;
    case Intrinsic::ceil: for (uint32_t i = 0; i < n; i++) set(fp1(OFCeil, w, w, A(0, i)), i); break;
    case Intrinsic::trunc: for (uint32_t i = 0; i < n; i++) set(fp1(OFTrunc, w, w, A(0, i)), i); break;
    case Intrinsic::round: for (uint32_t i = 0; i < n; i++) set(fp1(OFRound, w, w, A(0, i)), i); break;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: for (uint32_t i = 0; i < n; i++) set(fp1(OFRint, w, w, A(0, i)), i); break;
    case Intrinsic::log: case Intrinsic::exp: case Intrinsic::log2: case Intrinsic::log10: case Intrinsic::sin: case Intrinsic::cos: {
        const char *nm = d.k == Intrinsic::log ? "log" : d.k == Intrinsic::exp ? "exp" : d.k == Intrinsic::log2 ? "log2" : d.k == Intrinsic::log10 ? "log10" : d.k == Intrinsic::sin ? "sin" : "cos";
        int id = std::find(mathNames.begin(), mathNames.end(), nm) - mathNames.begin();
        for (uint32_t i = 0; i < n; i++) set(fp1(OFMath, w, w, A(0, i), id), i);
        break;
    }
    case Intrinsic::fma: case Intrinsic::fmuladd:
        for (uint32_t i = 0; i < n; i++) {
            Val a = A(0, i), b = A(1, i), c = A(2, i);
            if (d.k == Intrinsic::fmuladd) { set(fpOp(OFAdd, w, w, fpOp(OFMul, w, w, a, b), c), i); continue; }
            if (!a.e && !b.e && !c.e) set(Val(evalOp(OFFma, w, 0, w, a.c, b.c, c.c)), i);
            else set(toV(mkFP(OFFma, w, toE(a, w), toE(b, w), toE(c, w))), i);
        }
        break;
    case Intrinsic::minnum: case Intrinsic::maxnum:
        for (uint32_t i = 0; i < n; i++) {
            Val a = A(0, i), b = A(1, i);
            Val na = fp1(OFIsNaN, 1, w, a);
            Val c = d.k == Intrinsic::minnum ? fpOp(OFLt, 1, w, b, a) : fpOp(OFLt, 1, w, a, b);
            set(iteV(binOp(OOr, 1, na, c), w, b, a), i);
        }
        break;
    case Intrinsic::copysign:
        for (uint32_t i = 0; i < n; i++) {
            Val a = A(0, i), b = A(1, i);
            if (b.e && b.e->op == ODyadic) {
                Val neg = fpOp(OFLt, 1, w, b, Val((uint64_t)0));
                Val m = fabsV(w, a);
                set(iteV(neg, w, fnegV(w, m), m), i);
                continue;
            }
            uint64_t sb = 1ull << (w - 1);
            set(binOp(OOr, w, fabsV(w, a), binOp(OAnd, w, b, Val(sb))), i);
        }
        break;
    case Intrinsic::is_fpclass: {
        uint64_t m = A(1).c;
        Val a = A(0);
        unsigned wa = ti(d.I->getOperand(0)->getType())->l[0].w;
        Val r((uint64_t)0);
        if ((m & 3) == 3) { r = binOp(OOr, 1, r, fp1(OFIsNaN, 1, wa, a)); m &= ~3ull; }
        Val inf(wa == 64 ? 0x7ff0000000000000ull : 0x7f800000ull), ninf(wa == 64 ? 0xfff0000000000000ull : 0xff800000ull), z((uint64_t)0);
        if (m & 0x204) {
            if (m & 0x200) r = binOp(OOr, 1, r, fpOp(OFEq, 1, wa, a, inf));
            if (m & 0x4) r = binOp(OOr, 1, r, fpOp(OFEq, 1, wa, a, ninf));
            m &= ~0x204ull;
        }
        if (m == 0x1f8) { // finite
            r = binOp(OOr, 1, r, binOp(OAnd, 1, fpOp(OFLt, 1, wa, a, inf), fpOp(OFLt, 1, wa, ninf, a)));
            m = 0;
        }
        if (m == 0x60) { r = binOp(OOr, 1, r, fpOp(OFEq, 1, wa, a, z)); m = 0; }
        Val mn(wa == 64 ? 0x0010000000000000ull : 0x00800000ull), nmn(wa == 64 ? 0x8010000000000000ull : 0x80800000ull);
        auto lt = [&](const Val &x, const Val &y) { return fpOp(OFLt, 1, wa, x, y); };
        auto both = [&](const Val &x, const Val &y) { return binOp(OAnd, 1, x, y); };
        auto nlt = [&](const Val &x, const Val &y) { return notV(lt(x, y)); };
        if (m & 0x100) r = binOp(OOr, 1, r, both(nlt(a, mn), lt(a, inf)));
        if (m & 0x80) r = binOp(OOr, 1, r, both(lt(z, a), lt(a, mn)));
        if (m & 0x10) r = binOp(OOr, 1, r, both(lt(a, z), lt(nmn, a)));
        if (m & 0x8) r = binOp(OOr, 1, r, both(nlt(nmn, a), lt(ninf, a)));
        m &= ~0x198ull;
        if (m) unsupported(s, "is_fpclass mask");
        set(r);
        break;
    }
    case Intrinsic::eh_typeid_for: set(Val((uint64_t)typeIdOf(A(0).c))); break;
    case Intrinsic::vastart: {
        // x86-64 va_list: everything in the overflow area
        uint64_t ap = A(0).c;
        Frame &fr = s.top();
        size_t cnt = fr.va.size();
        uint64_t area = stackAlloc(s, std::max<size_t>(cnt, 1) * 8);
        Frame &f2 = s.top();
        for (size_t i = 0; i < cnt; i++) {
            Val v = f2.va[i];
            if (v.e && v.e->w < 64) v = toV(mkZExt(v.e, 64));
            storeLeaf(s, Val(area + 8 * i), 8, v);
        }
        storeLeaf(s, Val(ap), 4, Val((uint64_t)48));
        storeLeaf(s, Val(ap + 4), 4, Val((uint64_t)176));
        storeLeaf(s, Val(ap + 8), 8, Val(area));
        storeLeaf(s, Val(ap + 16), 8, Val((uint64_t)0));
        break;
    }
    case Intrinsic::vacopy: copyBytes(s, A(0).c, A(1).c, 24); break;
    case Intrinsic::vector_reduce_fadd: {
        Val acc = A(0);
        uint32_t m = (uint32_t)d.sc[1];
        for (uint32_t i = 0; i < m; i++) acc = fpOp(OFAdd, w, w, acc, A(1, i));
        set(acc);
        break;
    }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: {
        uint32_t m = (uint32_t)d.sc[0];
        Val acc = A(0, 0);
        for (uint32_t i = 1; i < m; i++) acc = binOp(d.k == Intrinsic::vector_reduce_add ? OAdd : d.k == Intrinsic::vector_reduce_or ? OOr : OAnd, w, acc, A(0, i));
        set(acc);
        break;
    }
    case Intrinsic::powi: {
        Val a = A(0), k = A(1);
        if (k.e) unsupported(s, "symbolic powi");
        int e = (int)k.c;
        Val r(fpb(w, 1.0));
        for (int i = 0; i < std::abs(e); i++) r = fpOp(OFMul, w, w, r, a);
        if (e < 0) r = fpOp(OFDiv, w, w, Val(fpb(w, 1.0)), r);
        set(r);
        break;
    }
    case Intrinsic::pow: {
        Val a = A(0), b = A(1);
        if (!a.e && !b.e) { set(Val(fpb(w, pow(fpv(w, a.c), fpv(w, b.c))))); break; }
        if (!b.e) {
            double k = fpv(w, b.c);
            if (k == 2.0) { set(fpOp(OFMul, w, w, a, a)); break; }
            if (k == 1.0) { set(a); break; }
            if (k == 0.5) { set(fp1(OFSqrt, w, w, a)); break; }
        }
        {
            if (a.e) a = Val(concretize(s, a, w));
            if (b.e) b = Val(concretize(s, b, w));
            set(Val(fpb(w, pow(fpv(w, a.c), fpv(w, b.c)))));
        }
        break;
    }
    case Intrinsic::masked_load: case Intrinsic::masked_store: unsupported(s, "masked"); break;
    default: {
        Function *cf = (Function *)d.ex;
        StringRef nmx = cf->getName();
        if (nmx.starts_with("llvm.x86.avx.maskload") || nmx.starts_with("llvm.x86.avx2.maskload") || nmx.starts_with("llvm.x86.avx.maskstore") || nmx.starts_with("llvm.x86.avx2.maskstore")) {
            bool st = nmx.contains("store");
            uint32_t lw = nmx.contains(".pd") || nmx.contains(".q") ? 64 : 32, m = (uint32_t)d.sc[1];
            Val base = A(0);
            for (uint32_t i = 0; i < m; i++) {
                Val mk = A(1, i);
                if (mk.e) unsupported(s, "symbolic SIMD mask");
                bool on = (mk.c >> (lw - 1)) & 1;
                if (!on) { if (!st) set(Val((uint64_t)0), i); continue; }
                Val ad = binOp(OAdd, 64, base, Val((uint64_t)(i * lw / 8)));
                if (st) storeLeaf(s, ad, lw / 8, A(2, i));
                else set(loadLeaf(s, ad, lw / 8, lw), i);
            }
            break;
        }
        if (nmx.starts_with("llvm.x86.avx.blendv") || nmx.starts_with("llvm.x86.sse41.blendvp")) {
            for (uint32_t i = 0; i < d.n; i++) {
                Val mk = A(2, i);
                if (!mk.e) { set((mk.c >> (w - 1)) & 1 ? A(1, i) : A(0, i), i); continue; }
                set(iteV(toV(mkExtract(mk.e, w - 1, 1)), w, A(1, i), A(0, i)), i);
            }
            break;
        }
        Builtin b = builtinFor(cf);
        if (b) {
            std::vector<Val> args, ret;
            gatherArgs(s.top(), d, args);
            b(s, d, args, ret);
            for (uint32_t i = 0; i < d.n; i++) set(i < ret.size() ? ret[i] : Val((uint64_t)0), i);
            break;
        }
        unsupported(s, "intrinsic " + cf->getName().str());
    }
    }
    finishCall(s);
}

#include "builtins.inc"
