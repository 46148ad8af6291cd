  // ------------------------------------------------------------ execution
  Val get(Frame& f, const Opnd& o) { return o.slot >= 0 ? f.r[o.slot] : o.c; }
  uint64_t conc(const Val& v, const char* why) {
    if (v.k == INT) return (uint64_t) v.c;
    return (uint64_t) concretize(asInt(v), why);
  }
  std::string cstr(Val p) {
    std::string s;
    for (;;) {
      Val b = load(p, Type::getInt8Ty(lc));
      if (b.k != INT) fail("symbolic string");
      if (!b.c) return s;
      s += (char) b.c;
      p = addOff(p, 1);
      if (s.size() > 100000) fail("unterminated string");
    }
  }
  void pushCall(Function* F, std::vector<Val>&& args, int retDst, bool inv) {
    Fiber& fb = fibers[cur];
    if ((long) fb.st.size() > depthLimit) bug("resource", "call depth limit exceeded");
    Code* cd = getCode(F);
    if (!cd->ran) { cd->ran = true; fnsRun.insert(cd->dname); }
    fb.st.emplace_back();
    Frame& f = fb.st.back();
    f.code = cd;
    f.r.resize(cd->nslots);
    size_t np = F->arg_size();
    for (size_t i = 0; i < np && i < args.size(); ++i) {
      // byval arguments are copied
      if (cd->byval && F->getArg(i)->hasByValAttr()) {
        Type* t = F->getArg(i)->getParamByValType();
        uint32_t id = newObj(DL->getTypeAllocSize(t).getFixedValue(), 0, "byval argument");
        Val d = Val::I((int64_t) objs[id].base, 64);
        copyBytes(d, args[i], Val::I((int64_t) objs[id].size, 64));
        f.allocas.push_back(id);
        f.r[i] = d;
      } else f.r[i] = args[i];
    }
    f.retDst = retDst;
    f.viaInvoke = inv;
  }
  void popFrame() {
    Frame& f = fibers[cur].st.back();
    for (auto a : f.allocas) {
      Obj& o = objs[a];
      o.alive = false;
      o.data = {}; o.mask = {}; o.cells.clear();
      freeStack.push_back(a);
    }
    fibers[cur].st.pop_back();
  }
  void gotoBlock(Frame& f, int b) {
    f.prev = f.bb;
    f.bb = b;
    f.ip = 0;
    Block& bl = f.code->blocks[b];
    if (bl.nphi) {
      Val tmp[64];
      std::vector<Val> big;
      Val* t = tmp;
      if (bl.nphi > 64) { big.resize(bl.nphi); t = big.data(); }
      for (int i = 0; i < bl.nphi; ++i) {
        bool found = false;
        for (auto& p : bl.insts[i].phi)
          if (p.first == f.prev) { t[i] = get(f, p.second); found = true; break; }
        if (!found) fail("phi without predecessor");
      }
      for (int i = 0; i < bl.nphi; ++i) f.r[bl.insts[i].dst] = t[i];
      f.ip = bl.nphi;
    }
  }
  void doReturn(Val v) {
    Fiber& fb = fibers[cur];
    int dst = fb.st.back().retDst;
    bool inv = fb.st.back().viaInvoke;
    popFrame();
    if (fb.st.empty()) { fb.done = true; return; }
    Frame& c2 = fb.st.back();
    if (dst >= 0) c2.r[dst] = v;
    if (inv) {
      Inst& in = c2.code->blocks[c2.bb].insts[c2.ip - 1];
      gotoBlock(c2, in.succ[0]);
    }
  }
  // ------------------------------------------------------------ exceptions
  bool derives(uint64_t ti, uint64_t base) {
    for (int g = 0; g < 10; ++g) {
      if (ti == base) return true;
      const GlobalVariable* G = nullptr;
      for (auto& p : globals) if (objs[p.second].base == ti) { G = p.first; break; }
      if (!G || !G->hasInitializer()) return false;
      auto* cs = dyn_cast<ConstantStruct>(G->getInitializer());
      if (!cs || cs->getNumOperands() != 3) return false;
      ti = (uint64_t) constVal(cs->getOperand(2)).c;
    }
    return false;
  }
  void unwind() {
    Fiber& fb = fibers[cur];
    bool first = true;
    while (true) {
      if (fb.st.empty()) { abortPath("uncaught exception"); }
      Frame& f = fb.st.back();
      Inst& in = f.code->blocks[f.bb].insts[f.ip - 1];
      bool isInv = isa<InvokeInst>(in.I);
      if (isInv && (!first || true)) {
        gotoBlock(f, in.succ[1]);
        // landing pad
        Block& bl = f.code->blocks[f.bb];
        Inst& lp = bl.insts[f.ip];
        auto* L = dyn_cast<LandingPadInst>(lp.I);
        if (!L) fail("landing pad expected");
        int sel = 0;
        bool match = false;
        for (unsigned i = 0; i < L->getNumClauses() && !match; ++i) {
          if (!L->isCatch(i)) continue;
          Constant* cl = L->getClause(i);
          if (cl->isNullValue()) { match = true; sel = 1; break; }
          uint64_t t = (uint64_t) constVal(cl).c;
          if (derives(curExcTinfo, t)) { match = true; sel = typeId(t); }
        }
        if (match || L->isCleanup()) {
          f.ip++;
          f.r[lp.dst] = AGGv({Val::I((int64_t) curExcObj, 64), Val::I(match ? sel : 0, 32)});
          return;
        }
      }
      if (f.code->F->doesNotThrow()) abortPath("exception leaves a noexcept function");
      popFrame();
      first = false;
    }
  }
  std::map<uint64_t, int> typeIds;
  int typeId(uint64_t t) {
    auto it = typeIds.find(t);
    if (it != typeIds.end()) return it->second;
    int n = typeIds.size() + 2;
    return typeIds[t] = n;
  }
  // ------------------------------------------------------------ run
  void run() {
    while (true) {
      if (fibers[0].done) return;
      if (fibers[cur].done) fail("fiber finished without switching back");
      Fiber& fb = fibers[cur];
      Frame& f = fb.st.back();
      Inst& in = f.code->blocks[f.bb].insts[f.ip++];
      if (++steps > maxSteps) { throw PathEnd{PathEnd::ERROR, "step limit"}; }
      switch (in.opc) {
        case Instruction::Alloca: {
          auto* A = cast<AllocaInst>(in.I);
          uint64_t n = DL->getTypeAllocSize(A->getAllocatedType()).getFixedValue();
          if (A->isArrayAllocation()) n *= conc(get(f, in.ops[0]), "alloca size");
          uint32_t id = newObj(n, 0, std::string("local ") + A->getName().str());
          f.allocas.push_back(id);
          f.r[in.dst] = Val::I((int64_t) objs[id].base, 64);
          break;
        }
        case Instruction::Load: {
          Val v = load(get(f, in.ops[0]), in.ty);
          fibers[cur].st.back().r[in.dst] = v;
          break;
        }
        case Instruction::Store: store(get(f, in.ops[1]), get(f, in.ops[0]), in.I->getOperand(0)->getType()); break;
        case Instruction::GetElementPtr: {
          Val a = addOff(get(f, in.ops[0]), in.imm);
          for (auto& g : in.gep) {
            Val i = get(f, in.ops[g.op]);
            if (a.k == UNDEF || i.k == UNDEF) { a = Val(); break; }
            if (a.k == INT && i.k == INT) a = Val::I(a.c + (i.w == 1 ? -i.c : i.c) * g.scale, 64);
            else a = SYMv(c.addmul(asInt(a), asInt(i), g.scale), 64);
          }
          f.r[in.dst] = a;
          break;
        }
        case Instruction::ICmp: f.r[in.dst] = icmp(cast<ICmpInst>(in.I), get(f, in.ops[0]), get(f, in.ops[1])); break;
        case Instruction::FCmp: f.r[in.dst] = fcmp(cast<FCmpInst>(in.I)->getPredicate(), get(f, in.ops[0]), get(f, in.ops[1])); break;
        case Instruction::Br:
          if (in.succ.size() == 1) { gotoBlock(f, in.succ[0]); break; }
          gotoBlock(f, branch(asBool(get(f, in.ops[0]))) ? in.succ[0] : in.succ[1]);
          break;
        case Instruction::Switch: {
          Val v = get(f, in.ops[0]);
          size_t i;
          bool hit = false;
          for (i = 1; i < in.ops.size(); ++i) {
            if (v.k == INT) hit = v.c == in.ops[i].c.c;
            else hit = branch(c.eq(asInt(v), asInt(in.ops[i].c)));
            if (hit) break;
          }
          gotoBlock(f, hit ? in.succ[i] : in.succ[0]);
          break;
        }
        case Instruction::Select: {
          Val cd = get(f, in.ops[0]);
          if (cd.k == INT) { f.r[in.dst] = get(f, in.ops[(cd.c & 1) ? 1 : 2]); break; }
          f.r[in.dst] = sel(asBool(cd), get(f, in.ops[1]), get(f, in.ops[2]));
          break;
        }
        case Instruction::Ret: doReturn(in.ops.empty() ? Val() : get(f, in.ops[0])); break;
        case Instruction::Unreachable: bug("ub", "unreachable code reached"); break;
        case Instruction::Call: case Instruction::Invoke: doCall(f, in); break;
        case Instruction::Resume: {
          Val e = get(f, in.ops[0]);
          curExcObj = (uint64_t) e.g->v[0].c;
          curExcTinfo = excType[curExcObj];
          popFrame();
          unwind();
          break;
        }
        case Instruction::ExtractValue: {
          Val a = get(f, in.ops[0]);
          for (unsigned i : cast<ExtractValueInst>(in.I)->indices()) { if (a.k != AGG) break; a = a.g->v[i]; }
          f.r[in.dst] = a.k == AGG ? AGGv(a.g->v) : a;
          break;
        }
        case Instruction::InsertValue: {
          Val a = get(f, in.ops[0]);
          if (a.k != AGG) a = mkUndef(in.ty);
          auto idx = cast<InsertValueInst>(in.I)->getIndices();
          f.r[in.dst] = insertVal(a, idx, 0, get(f, in.ops[1]));
          break;
        }
        case Instruction::ExtractElement: {
          Val a = get(f, in.ops[0]);
          uint64_t i = conc(get(f, in.ops[1]), "vector index");
          f.r[in.dst] = a.k == AGG ? a.g->v[i] : Val();
          break;
        }
        case Instruction::InsertElement: {
          Val a = get(f, in.ops[0]);
          if (a.k != AGG) a = mkUndef(in.ty);
          std::vector<Val> v = a.g->v;
          v[conc(get(f, in.ops[2]), "vector index")] = get(f, in.ops[1]);
          f.r[in.dst] = AGGv(std::move(v));
          break;
        }
        case Instruction::Freeze: { Val v = get(f, in.ops[0]); if (v.k == UNDEF) v = Val::I(0, in.ty->isIntegerTy() ? in.ty->getIntegerBitWidth() : 64); f.r[in.dst] = v; break; }
        case Instruction::FNeg: {
          Val a = get(f, in.ops[0]);
          if (a.k == FP) f.r[in.dst] = Val::D(-a.d, a.w);
          else f.r[in.dst] = realVal(c.rmul(c.rc(-1), asReal(a)), 64);
          break;
        }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
          f.r[in.dst] = fpBin(in.opc, get(f, in.ops[0]), get(f, in.ops[1]), in.ty->isFloatTy() ? 32 : 64);
          break;
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
        case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::AddrSpaceCast:
          f.r[in.dst] = castOp(in, get(f, in.ops[0]));
          break;
        case Instruction::AtomicRMW: {
          auto* A = cast<AtomicRMWInst>(in.I);
          Val p = get(f, in.ops[0]), v = get(f, in.ops[1]), o = load(p, in.ty), n;
          int w = in.ty->isPointerTy() ? 64 : in.ty->getIntegerBitWidth();
          switch (A->getOperation()) {
            case AtomicRMWInst::Xchg: n = v; break;
            case AtomicRMWInst::Add: n = SYMv(wrapS(c.add(asInt(o), asInt(v)), w), w); break;
            case AtomicRMWInst::Sub: n = SYMv(wrapS(c.sub(asInt(o), asInt(v)), w), w); break;
            case AtomicRMWInst::Or: n = o.k == INT && v.k == INT ? Val::I(o.c | v.c, w) : Val(); break;
            case AtomicRMWInst::And: n = o.k == INT && v.k == INT ? Val::I(o.c & v.c, w) : Val(); break;
            default: fail("atomicrmw");
          }
          store(p, n, in.ty);
          f.r[in.dst] = o;
          break;
        }
        case Instruction::AtomicCmpXchg: {
          Type* t = in.I->getOperand(1)->getType();
          Val p = get(f, in.ops[0]), e = get(f, in.ops[1]), n = get(f, in.ops[2]), o = load(p, t);
          bool eq = branch(c.eq(asInt(o), asInt(e)));
          if (eq) store(p, n, t);
          f.r[in.dst] = AGGv({o, Val::I(eq, 1)});
          break;
        }
        case Instruction::Fence: break;
        default:
          if (in.I->isBinaryOp()) {
            Val a = get(f, in.ops[0]), b = get(f, in.ops[1]);
            if (a.k == AGG) fail("vector arithmetic");
            X guard = c.T;
            for (auto& g : in.guard) { X x = asBool(get(f, g.first)); guard = c.an(guard, g.second ? x : c.nt(x)); }
            f.r[in.dst] = intBin(in, a, b, guard);
            break;
          }
          fail(std::string("instruction ") + in.I->getOpcodeName());
      }
    }
  }
  Val mkUndef(Type* t) {
    if (t->isStructTy()) { std::vector<Val> v; for (unsigned i = 0; i < t->getStructNumElements(); ++i) v.push_back(mkUndef(t->getStructElementType(i))); return AGGv(v); }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) return AGGv(std::vector<Val>(vt->getNumElements()));
    if (t->isArrayTy()) { std::vector<Val> v; for (unsigned i = 0; i < t->getArrayNumElements(); ++i) v.push_back(mkUndef(t->getArrayElementType())); return AGGv(v); }
    return Val();
  }
  Val insertVal(const Val& a, ArrayRef<unsigned> idx, size_t k, const Val& v) {
    std::vector<Val> x = a.g->v;
    if (k + 1 == idx.size()) x[idx[k]] = v;
    else x[idx[k]] = insertVal(x[idx[k]], idx, k + 1, v);
    return AGGv(std::move(x));
  }
  // ------------------------------------------------------------ calls
  typedef std::vector<Val> Args;
  typedef std::function<bool(Args&, Val&, const Inst&)> Ext;  // returns false when control was transferred
  std::unordered_map<std::string, Ext> exts;
  std::unordered_map<const Function*, std::pair<Ext*, bool>> extOf;

  void doCall(Frame& f, Inst& in) {
    Function* F = in.callee;
    if (F && F->isIntrinsic()) { intrinsic(f, in, F->getIntrinsicID()); return; }
    Args args;
    size_t n = in.ops.size() - 1;
    args.reserve(n);
    for (size_t i = 0; i < n; ++i) args.push_back(get(f, in.ops[i]));
    if (!F) {
      Val cv = get(f, in.ops[n]);
      if (cv.k == SYM) cv = Val::I((int64_t) concretize(cv.e, "function pointer"), 64);
      if (cv.k != INT) bug("ub", "call through an uninitialised function pointer");
      uint64_t a = (uint64_t) cv.c;
      uint64_t i = (a - 0x100000ull) / 16;
      if (a < 0x100000ull || i >= fnByIdx.size() || (a & 15)) {
        if (isa<InlineAsm>(cast<CallBase>(in.I)->getCalledOperand())) fail("inline assembly");
        bug("ub", "call through an invalid function pointer");
      }
      F = const_cast<Function*>(fnByIdx[i]);
    }
    bool inv = in.opc == Instruction::Invoke;
    auto fe = extOf.find(F);
    if (fe == extOf.end()) {
      auto it = exts.find(F->getName().str());
      fe = extOf.emplace(F, std::make_pair(it == exts.end() ? nullptr : &it->second, F->getName().starts_with("_ZNSt7__cxx119to_string"))).first;
    }
    if (fe->second.first) {
      Val r;
      if ((*fe->second.first)(args, r, in)) {
        Frame& g = fibers[cur].st.back();
        if (in.dst >= 0) g.r[in.dst] = r;
        if (inv) gotoBlock(g, in.succ[0]);
      }
      return;
    }
    if (args.size() == 2 && (args[1].k == SYM || args[1].k == SB) && fe->second.second) {
      stubs["std::to_string of a symbolic value"]++;
      mkEmptyString(args[0]);
      if (inv) gotoBlock(fibers[cur].st.back(), in.succ[0]);
      return;
    }
    if (!F->isDeclaration() && !isStream(F)) {
      pushCall(F, std::move(args), in.dst, inv);
      return;
    }
    // (reached for stream functions and declarations only) unknown external: formatting / streams / locale get an empty body
    std::string nm = F->getName().str(), d = demangle(nm);
    auto has = [&](const char* s) { return d.find(s) != std::string::npos; };
    if (isStream(F)) {
      stubs[d.substr(0, 80)]++;
      Val r = args.empty() ? Val::I(0, 64) : args[0];
      if (in.I->hasOneUse() || true) {
        Frame& g = fibers[cur].st.back();
        if (F->arg_size() && F->getArg(0)->hasStructRetAttr()) {
          // std::string str(): an empty string object
          if (has("::str() const") ) mkEmptyString(args[0]);
        }
        if (in.dst >= 0) g.r[in.dst] = in.ty->isPointerTy() ? r : in.ty->isIntegerTy() ? Val::I(0, in.ty->getIntegerBitWidth()) : Val();
        if (inv) gotoBlock(g, in.succ[0]);
      }
      return;
    }
    fail("external function " + d);
  }
  std::unordered_map<const Function*, bool> streamFn;
  bool isStream(const Function* F) {  // a member of / operator on the standard streams (formatting only)
    auto it = streamFn.find(F);
    if (it != streamFn.end()) return it->second;
    std::string nm = F->getName().str(), d;
    bool r = false;
    if (nm.rfind("_ZSt", 0) == 0 || nm.rfind("_ZNSt", 0) == 0 || nm.rfind("_ZNKSt", 0) == 0 || nm.rfind("_ZNSo", 0) == 0 || nm.rfind("_ZNSi", 0) == 0 || nm.rfind("_ZNKSo", 0) == 0) {
      d = demangle(nm);
      for (auto s : {"basic_ostream", "basic_ios", "ios_base", "basic_ostringstream", "basic_stringstream", "basic_istream", "std::locale", "stringbuf", "std::ostream", "std::basic_streambuf", "ofstream", "basic_filebuf", "basic_ofstream", "basic_istringstream"})
        if (d.find(s) != std::string::npos) r = true;
    }
    return streamFn[F] = r;
  }
  void mkEmptyString(Val p) {
    Type* i64 = Type::getInt64Ty(lc);
    store(p, addOff(p, 16), i64);
    store(addOff(p, 8), Val::I(0, 64), i64);
    store(addOff(p, 16), Val::I(0, 8), Type::getInt8Ty(lc));
  }
  void intrinsic(Frame& f, Inst& in, Intrinsic::ID id) {
    auto A = [&](int i) { return get(f, in.ops[i]); };
    Val r;
    int w = in.ty->isIntegerTy() ? (int) in.ty->getIntegerBitWidth() : in.ty->isFloatTy() ? 32 : 64;
    switch (id) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::assume:
      case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::stackrestore:
        break;
      case Intrinsic::stacksave: r = Val::I(0, 64); break;
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyBytes(A(0), A(1), A(2)); break;
      case Intrinsic::memset: case Intrinsic::memset_inline: memset_(A(0), A(1), A(2)); break;
      case Intrinsic::expect: r = A(0); break;
      case Intrinsic::is_constant: r = Val::I(0, 1); break;
      case Intrinsic::objectsize: r = Val::I(-1, w); break;
      case Intrinsic::trap: case Intrinsic::ubsantrap: abortPath("trap"); break;
      case Intrinsic::eh_typeid_for: { uint64_t t = (uint64_t) A(0).c; r = Val::I(t ? typeId(t) : 1, 32); break; }
      case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: {
        bool uns = id == Intrinsic::umax || id == Intrinsic::umin, mx = id == Intrinsic::smax || id == Intrinsic::umax;
        X x = uns ? asUns(A(0)) : asInt(A(0)), y = uns ? asUns(A(1)) : asInt(A(1));
        r = sel(c.le(x, y), mx ? A(1) : A(0), mx ? A(0) : A(1));
        break;
      }
      case Intrinsic::abs: { X x = asInt(A(0)); r = sel(c.lt(x, c.Z), SYMv(wrapS(c.mulc(x, -1), w), w), A(0)); break; }
      case Intrinsic::fabs: {
        Val a = A(0);
        if (a.k == FP) r = Val::D(std::fabs(a.d), w);
        else { X x = asReal(a); r = FRv(c.rite(c.rlt0(x), c.rmul(c.rc(-1), x), x)); }
        break;
      }
      case Intrinsic::sqrt: r = sqrt_(A(0), w); break;
      case Intrinsic::floor: { Val a = A(0); r = a.k == FP ? Val::D(std::floor(a.d), w) : FRv(c.i2r(floorOf(asReal(a)))); break; }
      case Intrinsic::ceil: { Val a = A(0); r = a.k == FP ? Val::D(std::ceil(a.d), w) : FRv(c.rmul(c.rc(-1), c.i2r(floorOf(c.rmul(c.rc(-1), asReal(a)))))); break; }
      case Intrinsic::fmuladd: case Intrinsic::fma: r = fpBin(Instruction::FAdd, fpBin(Instruction::FMul, A(0), A(1), w), A(2), w); break;
      case Intrinsic::maxnum: case Intrinsic::minnum: {
        Val a = A(0), b = A(1);
        Val lt = fcmp(CmpInst::FCMP_OLT, a, b);
        bool mx = id == Intrinsic::maxnum;
        r = sel(asBool(lt), mx ? b : a, mx ? a : b);
        break;
      }
      case Intrinsic::copysign: {
        Val a = A(0), b = A(1);
        if (a.k == FP && b.k == FP) { r = Val::D(std::copysign(a.d, b.d), w); break; }
        X x = asReal(a);
        X ab = c.rite(c.rlt0(x), c.rmul(c.rc(-1), x), x);
        X ng = b.k == FP ? c.cb(std::signbit(b.d)) : c.rlt0(asReal(b));
        r = FRv(c.rite(ng, c.rmul(c.rc(-1), ab), ab));
        break;
      }
      case Intrinsic::is_fpclass: { Val a = A(0); if (a.k == FP) { int m = (int) A(1).c; double d = a.d; bool v = false; if (m & 3) v |= std::isnan(d); if (m & 0x4) v |= std::isinf(d) && d < 0; if (m & 0x200) v |= std::isinf(d) && d > 0; if (m & 0x1f8) { if (std::isfinite(d)) v |= true; } r = Val::I(v, 1); } else r = Val::I((A(1).c & 0x1f8) != 0, 1); break; }
      case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
      case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: {
        int ww = in.ty->getStructElementType(0)->getIntegerBitWidth();
        bool uns = id == Intrinsic::uadd_with_overflow || id == Intrinsic::usub_with_overflow || id == Intrinsic::umul_with_overflow;
        X x = uns ? asUns(A(0)) : asInt(A(0)), y = uns ? asUns(A(1)) : asInt(A(1)), v;
        if (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) v = c.add(x, y);
        else if (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) v = c.sub(x, y);
        else v = c.mul(x, y);
        X ok = uns ? c.an(c.le(c.Z, v), c.lt(v, c.ci(((i128) 1) << ww))) : inS(v, ww);
        Val ov = SBv(c.nt(ok));
        r = AGGv({SYMv(wrapS(v, ww), ww), ov});
        break;
      }
      case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
        uint64_t v = conc(A(0), "bit count");
        if (w < 64) v &= (1ull << w) - 1;
        int q = id == Intrinsic::ctpop ? __builtin_popcountll(v) : id == Intrinsic::cttz ? (v ? __builtin_ctzll(v) : w) : (v ? __builtin_clzll(v) - (64 - w) : w);
        r = Val::I(q, w);
        break;
      }
      case Intrinsic::bswap: { uint64_t v = conc(A(0), "bswap"); r = Val::I((int64_t) (__builtin_bswap64(v) >> (64 - w)), w); break; }
      case Intrinsic::threadlocal_address: r = A(0); break;
      case Intrinsic::lround: case Intrinsic::llround: r = lround_(A(0)); break;
      case Intrinsic::fshl: case Intrinsic::fshr: {
        uint64_t a = conc(A(0), "fsh"), b = conc(A(1), "fsh"), s = conc(A(2), "fsh") % w;
        uint64_t um = w == 64 ? ~0ull : (1ull << w) - 1;
        a &= um; b &= um;
        uint64_t v = id == Intrinsic::fshl ? (s ? (a << s) | (b >> (w - s)) : a) : (s ? (b >> s) | (a << (w - s)) : b);
        r = Val::I((int64_t) (v & um), w);
        break;
      }
      default: fail("intrinsic " + in.callee->getName().str());
    }
    Frame& g = fibers[cur].st.back();
    if (in.dst >= 0) g.r[in.dst] = r;
    if (in.opc == Instruction::Invoke) gotoBlock(g, in.succ[0]);
  }
  Val sqrt_(const Val& a, int w) {
    if (a.k == FP) return Val::D(std::sqrt(a.d), w);
    X x = asReal(a);
    require(c.nt(c.rlt0(x)), "fp", "square root of a negative number", false);
    return realVal(c.rsqrt(x), w);
  }
  Val lround_(const Val& a) {
    if (a.k == FP) {
      if (!(std::fabs(a.d) < 9.2e18)) bug("ub", "lround out of range");
      return Val::I(std::lround(a.d), 64);
    }
    X x = asReal(a), t;
    X half = c.rc(mpq_class(1, 2));
    if (!mayBe(c.rlt0(x))) t = floorOf(c.radd(x, half));
    else if (branch(c.rlt0(x))) t = c.mulc(floorOf(c.radd(c.rmul(c.rc(-1), x), half)), -1);
    else t = floorOf(c.radd(x, half));
    require(inS(t, 64), "ub", "lround out of range", false);
    return SYMv(t, 64);
  }
  void memset_(Val d, Val v, Val n) {
    uint64_t len = (uint64_t) concretize(asUns(n), "memset length");
    if (!len) return;
    Ref r = resolve(d, len, "memset");
    Obj& o = objs[r.obj];
    if (v.k != INT) fail("memset with a symbolic value");
    if (o.ro) bug("ub", "memset on constant memory");
    o.dirty = true;
    clearRange(o, r.off, len);
    std::fill(o.data.begin() + r.off, o.data.begin() + r.off + len, (uint8_t) v.c);
    std::fill(o.mask.begin() + r.off, o.mask.begin() + r.off + len, 1);
  }
  Val alloc(uint64_t n, const char* what) {
    uint32_t id = newObj(n, 1, what);
    return Val::I((int64_t) objs[id].base, 64);
  }
  void dealloc(Val p, const char* what) {
    if (p.k == SYM) p = Val::I((int64_t) concretize(p.e, "free"), 64);
    if (p.k == UNDEF) bug("ub", "free of an uninitialised pointer");
    if (p.c == 0) return;
    uint32_t id = findObj((uint64_t) p.c);
    if (!id || objs[id - 1].kind != 1 || objs[id - 1].base != (uint64_t) p.c) bug("ub", std::string(what) + " of a pointer that was not allocated");
    Obj& o = objs[id - 1];
    if (!o.alive) bug("ub", "double free");
    o.alive = false;
    o.data = {}; o.mask = {}; o.cells.clear();
  }
  std::string uniq(const std::string& n) {
    int k = nameCount[n]++;
    return k ? n + "#" + std::to_string(k) : n;
  }
  void setupExts() {
    auto on = [&](const char* n, Ext e) { exts[n] = std::move(e); };
    auto nop = [](Args&, Val& r, const Inst& in) { r = in.ty->isIntegerTy() ? Val::I(0, in.ty->getIntegerBitWidth()) : in.ty->isPointerTy() ? Val::I(0, 64) : Val(); return true; };
    // ---- harness interface
    auto vfint = [this](int w) {
      return [this, w](Args& a, Val& r, const Inst&) {
        std::string n = uniq(cstr(a[0]));
        i128 lo = asInt(a[1])->c, hi = asInt(a[2])->c;
        if (w == 65) { lo = (i128) (uint64_t) lo; hi = (i128) (uint64_t) (int64_t) hi; }
        if (lo > hi) throw PathEnd{PathEnd::ASSUME, ""};
        X v = lo == hi ? c.ci(lo) : c.var(n, lo, hi);
        if (lo != hi) declareVar(v);
        int ww = w == 65 ? 64 : w;
        r = SYMv(w == 65 ? wrapS(v, 64) : v, ww);
        nondet.push_back({n, SYMv(v, 64)});
        return true;
      };
    };
    on("vf_i64", vfint(64));
    on("vf_i32", vfint(32));
    on("vf_u64", vfint(65));
    on("vf_i16", vfint(16));
    on("vf_i8", vfint(8));
    on("vf_bool", [this](Args& a, Val& r, const Inst&) {
      std::string n = uniq(cstr(a[0]));
      X v = c.var(n, 0, 1);
      declareVar(v);
      r = SBv(c.nt(c.eq0(v)));
      nondet.push_back({n, SYMv(v, 64)});
      r.w = 1;
      return true;
    });
    on("vf_real", [this](Args& a, Val& r, const Inst&) {
      std::string n = uniq(cstr(a[0]));
      int64_t fl = a[1].c;
      X v = c.rvar(n, fl & 1, fl & 2);
      r = FRv(v);
      nondet.push_back({n, r});
      return true;
    });
    on("vf_known", [this](Args& a, Val& r, const Inst&) {
      mpq_class q;
      bool k = true;
      if (a[0].k == UNDEF) k = false;
      else if (a[0].k != FP) k = c.isConstReal(asReal(a[0]), q);
      r = Val::I(k, 64);
      return true;
    });
    on("vf_pick", [this](Args& a, Val& r, const Inst&) { r = Val::I(pick(cstr(a[0]), a[1].c, a[2].c), 64); return true; });
    on("vf_param", [this](Args& a, Val& r, const Inst&) {
      auto it = params.find(cstr(a[0]));
      r = Val::I(it == params.end() ? a[1].c : it->second, 64);
      nondet.push_back({"param:" + cstr(a[0]), r});
      return true;
    });
    on("vf_shard", [this](Args&, Val&, const Inst&) {
      uint64_t h = 1469598103934665603ull;
      for (auto& n : nondet) if (n.second.k == INT) { h ^= (uint64_t) n.second.c + 0x9e37; h *= 1099511628211ull; h ^= h >> 29; }
      sharded = true;
      if (nshard > 1 && (int) ((h >> 17) % nshard) != shard) throw PathEnd{PathEnd::SHARD, ""};
      return true;
    });
    on("vf_assume", [this](Args& a, Val&, const Inst&) {
      X b = asBool(a[0]);
      if (b == c.T) return true;
      if (b == c.F) throw PathEnd{PathEnd::ASSUME, ""};
      if (!mayBe(b, true)) throw PathEnd{PathEnd::ASSUME, ""};
      S.assume(b);
      return true;
    });
    on("vf_check", [this](Args& a, Val&, const Inst&) {
      if (a[0].k == UNDEF) bug("check", "check of an uninitialised value: " + cstr(a[1]));
      require(asBool(a[0]), "check", cstr(a[1]), true);
      return true;
    });
    on("vf_check_real", [this](Args& a, Val&, const Inst&) {
      X d;
      std::string m = cstr(a[2]);
      if (a[0].k == UNDEF || a[1].k == UNDEF) bug("check", "uninitialised value: " + m);
      if ((a[0].k == FP && !std::isfinite(a[0].d)) || (a[1].k == FP && !std::isfinite(a[1].d))) {
        require(c.cb(a[0].k == FP && a[1].k == FP && a[0].d == a[1].d), "check", m, true);
        return true;
      }
      d = c.radd(asReal(a[0]), asReal(a[1]), -1);
      require(c.req0(d), "check", m, true);
      return true;
    });
    on("vf_cover", [this](Args& a, Val&, const Inst&) {
      std::string n = cstr(a[0]);
      if (covers[n] == 0 || true) {
        // reachable: the path condition is satisfiable
        if (covers[n] == 0) {
          bool sat = S.path.empty() || S.haveModel;
          if (!sat && !replaying()) { R r = S.check(c.T); if (r == R::SAT) { S.commitModel(); sat = true; } }
          if (!sat) return true;
        }
        covers[n]++;
        // keep one sample per cover point
        if (covers[n] == 1) {
          c.model = &S.mi; c.rmodel = &S.mr; c.eval_epoch++;
          std::string s = n + ":";
          Witness w;
          w.cover = n;
          int k = 0;
          bool ok = true;
          for (auto& q : nondet) {
            std::string vs = valString(q.second, ok);
            w.vals.push_back({q.first, vs});
            if (++k <= 40) s += " " + q.first + "=" + vs;
          }
          if (samples.size() < 8) samples.push_back(s);
          if (ok) { openWit.push_back(witnesses.size()); witnesses.push_back(w); }
        }
      }
      return true;
    });
    on("vf_allow_abort", [this](Args& a, Val&, const Inst&) { abortOk = a[0].c != 0; return true; });
    on("vf_end", [](Args&, Val&, const Inst&) -> bool { throw PathEnd{PathEnd::OK, ""}; });
    on("vf_fail", [this](Args& a, Val&, const Inst&) { require(c.F, "check", cstr(a[0]), true); return true; });
    on("vf_concretize", [this](Args& a, Val& r, const Inst&) { r = Val::I((int64_t) concretize(asInt(a[0]), "vf_concretize"), 64); return true; });
    on("vf_is_symbolic_engine", [](Args&, Val& r, const Inst&) { r = Val::I(1, 32); return true; });
    on("vf_virtual", [this](Args& a, Val& r, const Inst&) {
      uint32_t id = newObj((uint64_t) a[0].c, 1, "virtual buffer", false);
      r = Val::I((int64_t) objs[id].base, 64);
      return true;
    });
    on("vf_fiber_new", [this](Args& a, Val& r, const Inst&) {
      fibers.emplace_back();
      int save = cur;
      cur = fibers.size() - 1;
      uint64_t i = ((uint64_t) a[0].c - 0x100000ull) / 16;
      pushCall(const_cast<Function*>(fnByIdx[i]), {a[1]}, -1, false);
      r = Val::I(cur, 32);
      cur = save;
      return true;
    });
    on("vf_fiber_switch", [this](Args& a, Val&, const Inst& in) {
      int t = (int) a[0].c;
      // finish this call in the current fiber before leaving it
      Frame& g = fibers[cur].st.back();
      if (in.opc == Instruction::Invoke) gotoBlock(g, const_cast<Inst&>(in).succ[0]);
      if (t < 0 || t >= (int) fibers.size() || fibers[t].done) fail("switch to a finished fiber");
      cur = t;
      return false;
    });
    on("vf_ev", [](Args&, Val& r, const Inst&) { r = Val::I(0, 64); return true; });
    on("vf_track", [](Args&, Val&, const Inst&) { return true; });
    on("vf_untrack", [](Args&, Val&, const Inst&) { return true; });
    on("vf_log", [this](Args& a, Val&, const Inst&) {
      std::string s = cstr(a[0]);
      Val v = a[1];
      std::cerr << "LOG " << s << " " << (v.k == INT ? std::to_string(v.c) : v.k == FP ? std::to_string(v.d) : v.k == SYM || v.k == SB || v.k == FR ? c.str(v.e) : "undef") << "\n";
      return true;
    });
    exts["vf_logd"] = exts["vf_log"];
    // ---- allocation
    auto mal = [this](Args& a, Val& r, const Inst&) { r = alloc((uint64_t) concretize(asUns(a[0]), "allocation size"), "heap block"); return true; };
    for (auto n : {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "__cxa_allocate_exception", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) on(n, mal);
    on("aligned_alloc", [this](Args& a, Val& r, const Inst&) { r = alloc((uint64_t) concretize(asUns(a[1]), "allocation size"), "heap block"); return true; });
    on("calloc", [this](Args& a, Val& r, const Inst&) {
      uint64_t n = (uint64_t) concretize(asUns(a[0]), "calloc") * (uint64_t) concretize(asUns(a[1]), "calloc");
      r = alloc(n, "heap block");
      Obj& o = objs[findObj((uint64_t) r.c) - 1];
      o.mask.assign(n, 1);
      return true;
    });
    auto fre = [this](Args& a, Val&, const Inst&) { dealloc(a[0], "free"); return true; };
    for (auto n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "__cxa_free_exception"}) on(n, fre);
    // ---- memory / strings
    on("memcpy", [this](Args& a, Val& r, const Inst&) { copyBytes(a[0], a[1], a[2]); r = a[0]; return true; });
    on("memmove", [this](Args& a, Val& r, const Inst&) { copyBytes(a[0], a[1], a[2]); r = a[0]; return true; });
    on("memset", [this](Args& a, Val& r, const Inst&) { memset_(a[0], a[1], a[2]); r = a[0]; return true; });
    on("pthread_self", [this](Args&, Val& r, const Inst&) { r = Val::I(1, 64); return true; });
    on("strlen", [this](Args& a, Val& r, const Inst&) {
      for (uint64_t i = 0;; ++i) if (branch(c.eq(asUns(load(addOff(a[0], i), Type::getInt8Ty(lc))), c.ci(0)))) { r = Val::I((int64_t) i, 64); return true; }
    });
    on("strcmp", [this](Args& a, Val& r, const Inst&) { r = Val::I(cstr(a[0]).compare(cstr(a[1])), 32); return true; });
    auto cmp = [this](Args& a, Val& r, const Inst&) {
      uint64_t n = (uint64_t) concretize(asUns(a[2]), "memcmp");
      Type* t = Type::getInt8Ty(lc);
      for (uint64_t i = 0; i < n; ++i) {
        X x = asUns(load(addOff(a[0], i), t)), y = asUns(load(addOff(a[1], i), t));
        if (!branch(c.eq(x, y))) { r = Val::I(branch(c.lt(x, y)) ? -1 : 1, 32); return true; }
      }
      r = Val::I(0, 32);
      return true;
    };
    on("memcmp", cmp);
    on("bcmp", cmp);
    on("memchr", [this](Args& a, Val& r, const Inst&) {
      uint64_t n = (uint64_t) concretize(asUns(a[2]), "memchr");
      for (uint64_t i = 0; i < n; ++i) if (branch(c.eq(asUns(load(addOff(a[0], i), Type::getInt8Ty(lc))), c.ci(a[1].c & 0xff)))) { r = addOff(a[0], i); return true; }
      r = Val::I(0, 64);
      return true;
    });
    // ---- process end
    auto term = [this](const char* w) { return [this, w](Args&, Val&, const Inst&) -> bool { abortPath(w); return true; }; };
    on("_ZSt9terminatev", term("std::terminate"));
    on("abort", term("abort"));
    on("exit", term("exit"));
    on("_exit", term("exit"));
    on("__assert_fail", term("assert"));
    on("__clang_call_terminate", term("std::terminate (exception in noexcept)"));
    on("__cxa_pure_virtual", term("pure virtual call"));
    // ---- exceptions
    on("__cxa_throw", [this](Args& a, Val&, const Inst&) { curExcObj = (uint64_t) a[0].c; curExcTinfo = (uint64_t) a[1].c; excType[curExcObj] = curExcTinfo; unwind(); return false; });
    on("__cxa_begin_catch", [this](Args& a, Val& r, const Inst&) { caught.push_back({(uint64_t) a[0].c, excType[(uint64_t) a[0].c]}); r = a[0]; return true; });
    on("__cxa_end_catch", [this](Args&, Val&, const Inst&) { if (!caught.empty()) caught.pop_back(); return true; });
    on("__cxa_get_exception_ptr", [](Args& a, Val& r, const Inst&) { r = a[0]; return true; });
    on("__cxa_rethrow", [this](Args&, Val&, const Inst&) { if (caught.empty()) abortPath("rethrow without exception"); curExcObj = caught.back().obj; curExcTinfo = caught.back().tinfo; unwind(); return false; });
    for (auto n : {"_ZSt17__throw_bad_allocv", "_ZSt20__throw_length_errorPKc", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt19__throw_logic_errorPKc", "_ZSt25__throw_bad_function_callv", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt20__throw_out_of_rangePKc", "_ZSt16__throw_bad_castv", "_ZSt26__throw_bad_variant_accessPKc", "_ZSt24__throw_invalid_argumentPKc", "_ZSt21__throw_runtime_errorPKc", "_ZSt20__throw_system_errori", "_ZSt23__throw_bad_optional_accessv", "_ZSt27__throw_bad_optional_accessv", "_ZSt19__throw_range_errorPKc"})
      on(n, [this, n](Args&, Val&, const Inst&) -> bool { abortPath(std::string("standard library exception: ") + demangle(n)); return true; });
    // ---- runtime support
    for (auto n : {"__cxa_atexit", "atexit", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy", "__cxa_thread_atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "setenv", "unsetenv", "printf", "fprintf", "puts", "putchar", "fflush", "_ZNSt6localeC1Ev", "_ZNSt6localeD1Ev", "vfprintf"}) on(n, nop);
    on("__cxa_guard_acquire", [this](Args& a, Val& r, const Inst&) {
      Val g = load(a[0], Type::getInt8Ty(lc));
      r = Val::I(!(g.k == INT && g.c), 32);
      return true;
    });
    on("__cxa_guard_release", [this](Args& a, Val&, const Inst&) { store(a[0], Val::I(1, 8), Type::getInt8Ty(lc)); return true; });
    on("__cxa_guard_abort", nop);
    on("__dynamic_cast", [this](Args&, Val&, const Inst&) -> bool { fail("dynamic_cast"); });
    // ---- math
    for (auto n : {"sqrt"}) on(n, [this](Args& a, Val& r, const Inst&) { r = sqrt_(a[0], 64); return true; });
    on("sqrtf", [this](Args& a, Val& r, const Inst&) { r = sqrt_(a[0], 32); return true; });
    for (auto n : {"lround", "lroundf", "llround"}) on(n, [this](Args& a, Val& r, const Inst&) { r = lround_(a[0]); return true; });
    on("fabs", [this](Args& a, Val& r, const Inst&) { if (a[0].k == FP) r = Val::D(std::fabs(a[0].d)); else { X x = asReal(a[0]); r = FRv(c.rite(c.rlt0(x), c.rmul(c.rc(-1), x), x)); } return true; });
    on("hypot", [this](Args& a, Val& r, const Inst&) {
      if (a[0].k == FP && a[1].k == FP) { r = Val::D(std::hypot(a[0].d, a[1].d)); return true; }
      X x = asReal(a[0]), y = asReal(a[1]);
      r = realVal(c.rsqrt(c.radd(c.rmul(x, x), c.rmul(y, y))), 64);
      return true;
    });
    on("pow", [this](Args& a, Val& r, const Inst&) { if (a[0].k != FP || a[1].k != FP) fail("symbolic pow"); r = Val::D(std::pow(a[0].d, a[1].d)); return true; });
    on("floor", [this](Args& a, Val& r, const Inst&) { r = a[0].k == FP ? Val::D(std::floor(a[0].d)) : FRv(c.i2r(floorOf(asReal(a[0])))); return true; });
    on("ceil", [this](Args& a, Val& r, const Inst&) { r = a[0].k == FP ? Val::D(std::ceil(a[0].d)) : FRv(c.rmul(c.rc(-1), c.i2r(floorOf(c.rmul(c.rc(-1), asReal(a[0])))))); return true; });
  }
  void declareVar(X v) {
    // range constraint is asserted by the solver when the variable first occurs
    (void) v;
  }
