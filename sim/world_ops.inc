    // included inside World: executing one step. Returns false if the step isn't applicable (then
    // nothing has happened).

    void* rawVar() { return ::operator new(sizeof(A)); }
    void freeRaw(void* p) { ::operator delete(p); }

    int freePool()
    {
        for (int i = 0; i < NV; ++i)
            if (!pool[i].m.on)
                return i;
        return -1;
    }
    // destroys the variable (any state)
    void destroyVar(int i)
    {
        PoolVar& v = pool[i];
        A* p = v.p;
        St st = lib([&] { p->~A(); });
        if (st != OK)
            ctx.fail("unexpected-exception", "destructor has thrown");
        freeRaw(p);
        killHandle(v.m);
        v.m = VarM();
        v.p = nullptr;
    }
    // sets up a new pool variable around a real construction
    template <class Fn>
    St construct(int i, Fn fn)
    {
        void* mem = rawVar();
        A* p = nullptr;
        St st = lib([&] { p = fn(mem); });
        if (st != OK)
        {
            freeRaw(mem);
            return st;
        }
        pool[i].p = p;
        pool[i].m = VarM();
        pool[i].m.on = true;
        return st;
    }
    void unexpected(const char* what)
    {
        ctx.fail("unexpected-exception", fmt("%s: %s", what, errType.c_str()));
    }
    // common handling of a failure; true if the step is over
    bool failed(St st, const char* what)
    {
        if (st == OK)
            return false;
        if (st == OOM)
            damage(A0(), true);
        else
            unexpected(what);
        return true;
    }
    // after recording a statement with result variable i
    void recordInto(VarM& m, A& a, Event& e, bool newReg)
    {
        if (newReg)
        {
            m.tape = A0();
            m.h = newHandle(a);
        }
        e.lhs = m.h;
        addEvent(e);
    }
    void expectReg(VarM& m, A& a, const char* what)
    {
        if (a.shouldRecord() != (m.h >= 0))
            ctx.fail("wrong-registration", fmt("%s: variable is %sregistered", what, m.h >= 0 ? "not " : ""));
    }

    bool exec(const Op& op)
    {
        th = op.thread % NTH;
        curFault = op.fault;
        curBurst = op.burst < 1 ? 1 : op.burst;
        if (T::hasInnerTape && A0() < 0)
            curFault = 0;   // the inner tape could not be recovered
        text.clear();
        bool done = false;
        if (prof.threads > 1)
            runOnThread(th, [&] { done = execOp(op); if (done) invariants(); });
        else
        {
            done = execOp(op);
            if (done)
                invariants();
        }
        curFault = 0;
        return done;
    }

    bool execOp(const Op& op)
    {
        const int64_t* a = op.a;
        switch (op.code)
        {
            case V_NEW: return opNew(a);
            case V_REGIN:
            case V_REGOUT: return opRegister(op.code, a);
            case V_EXPR_NEW: return opExprNew(a);
            case V_EXPR_ASSIGN: return opExprAssign(a);
            case V_COMPOUND: return opCompound(a);
            case V_COPY_NEW: return opCopyNew(a);
            case V_COPY_ASSIGN: return opCopyAssign(a);
            case V_MOVE_NEW: return opMoveNew(a);
            case V_MOVE_ASSIGN: return opMoveAssign(a);
            case V_SWAP: return opSwap(a);
            case V_SET: return opSet(a);
            case V_EDIT: return opEdit(a);
            case V_DESTROY: return opDestroy(a);
            case V_BURST: return opBurst(a);
            case V_COMPLEX: return opComplex(a);
            case C_PUSH:
            case C_POP:
            case C_INSERT:
            case C_ERASE:
            case C_RESIZE:
            case C_CLEAR:
            case C_PERMUTE:
            case C_REGISTER:
            case C_CROWD: return opContainer(op.code, a);
            case C_SUM: return opSum(a);
            case V_HAND: return opHand(a);
            case T_SEED: return opSeed(a);
            case T_CHECK:
                if (A0() < 0 || tapes[A0()].damaged)
                    return false;
                curFault = 0;
                checkAdjoints(a[0] % 2 == 0);
                return true;
            case T_COMPUTE: return A0() >= 0 && doSweep(-1, 0, op);
            case T_COMPUTE_TO:
            {
                if (A0() < 0 || tapes[A0()].pos.empty())
                    return false;
                MT& t = tapes[A0()];
                Pos p = t.pos[pickPos(t, a[0])];
                return doSweep(p.ev, p.real, op);
            }
            case T_RESET_TO: return opResetTo(a);
            case T_CLEARAFTER: return opClearAfter(a);
            case T_CLEARDER:
            {
                int t = tapeArg(a[0]);
                if (t < 0 || tapes[t].damaged)
                    return false;
                TapeT* r = tapes[t].real;
                if (failed(lib([&] { r->clearDerivatives(); }), "clearDerivatives"))
                    return true;
                tapes[t].init = false;
                tapes[t].clearAdj();
                return true;
            }
            case T_NEWREC: return opNewRec(a);
            case T_CLEARALL: return opClearAll(a);
            case T_POS:
            {
                int t = tapeArg(a[0]);
                if (t < 0 || tapes[t].damaged || tapes[t].pos.size() > 12)
                    return false;
                TapeT* r = tapes[t].real;
                unsigned p = 0;
                if (!must("getPosition", [&] { p = r->getPosition(); }))
                    return true;
                tapes[t].pos.push_back(Pos{p, int(tapes[t].ev.size())});
                return true;
            }
            case T_CREATE: return opCreate(a);
            case T_ACTIVATE: return opActivate(a);
            case T_DEACT: return opDeact(a);
            case T_DEACTALL:
            {
                if (sub)
                    return false;
                if (failed(lib([&] { TapeT::deactivateAll(); }), "deactivateAll"))
                    return true;
                if (A0() >= 0)
                    tapes[A0()].activeOn = -1;
                act[th] = -1;
                return true;
            }
            case T_DESTROY: return opTapeDestroy(a);
            case T_MOVE: return opTapeMove(a);
            case T_MOVE_ASSIGN: return opTapeMoveAssign(a);
            case T_HUSK:
            {
                if (husks.empty())
                    return false;
                size_t i = size_t(uint64_t(a[0]) % husks.size());
                TapeT* p = husks[i];
                must("destroying a moved-from tape", [&] { delete p; });
                husks.erase(husks.begin() + long(i));
                return true;
            }
            case T_OTHER: return opOther(a);
            case T_CANON: return opCanon(a);
            case K_INSERT: return opInsert(op);
            case K_PUSH:
            {
                int t = tapeArg(a[0]);
                if (t < 0 || tapes[t].damaged || looseCbs.size() + tapes[t].owned.size() > 20)
                    return false;
                Cb* cb = new Cb(this);
                TapeT* r = tapes[t].real;
                St st = lib([&] { r->pushCallback(cb); });
                if (st == OOM)
                {
                    looseCbs.push_back(cb);
                    damage(t, true);
                    return true;
                }
                tapes[t].owned.push_back(cb);
                return checkOwned(t);
            }
            case K_POP:
            {
                int t = tapeArg(a[0]);
                if (t < 0 || tapes[t].damaged || tapes[t].owned.empty())
                    return false;
                TapeT* r = tapes[t].real;
                typename TapeT::callback_type last = nullptr;
                if (!must("popCallback", [&] {
                        last = r->getLastCallback();
                        r->popCallback();
                    }))
                    return true;
                if ((prof.oracle & O_LIFE) && last != tapes[t].owned.back())
                    ctx.fail("callback-lifetime", "getLastCallback() is not the one pushed last");
                looseCbs.push_back(tapes[t].owned.back());
                tapes[t].owned.pop_back();
                return checkOwned(t);
            }
            case K_FREE:
            {
                // callback objects that no tape refers to
                for (size_t i = 0; i < looseCbs.size(); ++i)
                    if (looseCbs[i]->frames.empty() && !referred(looseCbs[i]))
                    {
                        Cb* cb = looseCbs[i];
                        if ((prof.oracle & O_LIFE) && cbDestroyed[size_t(cb->serial)])
                            ctx.fail("callback-lifetime", "callback not owned by the tape was destroyed");
                        else
                            delete cb;
                        looseCbs.erase(looseCbs.begin() + long(i));
                        return true;
                    }
                return false;
            }
            case N_BLOCK: return opNestedBlock(a);
            case M_MISUSE: return opMisuse(a);
            case S_STREAM: return false;
        }
        return false;
    }

    bool referred(Cb* cb)
    {
        for (auto& t : tapes)
            for (auto& k : t.ckpts)
                if (k.cb == cb)
                    return true;
        return false;
    }
    bool checkOwned(int ti)
    {
        MT& t = tapes[ti];
        if ((prof.oracle & O_LIFE) && !sub)
        {
            unsigned n = 0;
            bool have = false;
            must("getNumCallbacks", [&] {
                n = t.real->getNumCallbacks();
                have = t.real->haveCallbacks();
            });
            if (n != t.owned.size() || have != !t.owned.empty())
                ctx.fail("callback-lifetime", fmt("tape reports %u callbacks, %d have been pushed", n, int(t.owned.size())));
        }
        return true;
    }

    size_t pickPos(MT& t, int64_t code)
    {
        // mostly the latest one
        if (code % 3 != 0)
            return t.pos.size() - 1;
        return size_t(uint64_t(code / 3) % t.pos.size());
    }
    // the tape a step refers to: the active one, or (if there are several) any other
    int tapeArg(int64_t code)
    {
        if (prof.threads <= 1 && !prof.w[T_CREATE])
            return A0();
        if (code % 4 != 0)
            return A0();
        int t = int(uint64_t(code / 4) % NT);
        if (!tapes[t].real || (tapes[t].activeOn >= 0 && tapes[t].activeOn != th))
            return -1;
        return t;
    }

    // ------------------------------------------------------------------ variables
    bool opNew(const int64_t* a)
    {
        int i = int(uint64_t(a[0]) % NV);
        if (pool[i].m.on)
            return false;
        double v = codeVal(a[1]);
        St st = construct(i, [&](void* mem) {
            switch (a[2] % 3)
            {
                case 0:
                {
                    A* p = ::new (mem) A();
                    try
                    {
                        T::make(xad::value(*p), env, v, a[1]);
                    }
                    catch (...)
                    {
                        p->~A();
                        throw;
                    }
                    return p;
                }
                case 1: return ::new (mem) A(N(v));
                default: return ::new (mem) A(int(v));
            }
        });
        if (st == OOM)
        {
            envDamaged();
            return true;
        }
        if (failed(st, "constructing a variable"))
            return true;
        VarM& m = pool[i].m;
        m.val = a[2] % 3 == 0 ? T::makeF(v, a[1]) : F(a[2] % 3 == 1 ? double(N(v)) : double(int(v)));
        expectReg(m, *pool[i].p, "new variable");
        checkValue("new variable", *pool[i].p, m);
        text = fmt("v%d = %g", i, v);
        return true;
    }
    // memory ran out in an operation on plain values: only the inner tape is concerned
    void envDamaged()
    {
        if (T::hasInnerTape)
            for (int t = 0; t < NT; ++t)
                if (tapes[t].real)
                    damage(t, true);
    }

    bool opRegister(int code, const int64_t* a)
    {
        int i = idx(a[0]);
        VarM& m = *vm(i);
        if (!usable(m) || A0() < 0 || tapes[A0()].damaged || (m.h < 0 && !canRegister()))
            return false;
        A& x = *vp(i);
        TapeT* t = tapes[A0()].real;
        St st = lib([&] {
            if (code == V_REGIN)
            {
                switch (a[1] % 3)
                {
                    case 0: t->registerInput(x); break;
                    case 1: t->registerInputs(&x, &x + 1); break;
                    default: t->registerInput(x); t->registerInput(x); break;   // 2nd has no effect
                }
            }
            else if (a[1] % 2)
                t->registerOutput(x);
            else
                t->registerOutputs(&x, &x + 1);
        });
        text = fmt("v%d", i);
        if (st != OK)
        {
            if (st == OOM)
                resync(x, m);
            return failed(st, "registering");
        }
        if (m.h < 0)
        {
            if (!x.shouldRecord())
            {
                ctx.fail("wrong-registration", "variable is not registered");
                return true;
            }
            Event e;
            recordInto(m, x, e, true);
        }
        checkValue("registering", x, m);
        return true;
    }

    bool opExprNew(const int64_t* a)
    {
        int i = int(uint64_t(a[0]) % NV);
        if (pool[i].m.on)
            return false;
        int s = shapeOf(a[1]);
        int x = idx(a[2]), y = arity(s) > 1 ? idx(a[3]) : x, z = arity(s) > 2 ? idx(a[4]) : x;
        VarM &mx = *vm(x), &my = *vm(y), &mz = *vm(z);
        if (!usable(mx) || !usable(my) || !usable(mz))
            return false;
        bool rec = argsReg(s, mx, my, mz);
        if (rec && !canRegister())
            return false;
        F val, d[3];
        double k = constOf(a[5]);
        if (!evalModel(s, mx, my, mz, k, val, d))
            return false;
        St st = construct(i, [&](void* mem) { return newShape<A, N>(mem, s, *vp(x), *vp(y), *vp(z), N(k)); });
        text = fmt("v%d = shape%d(v%d,v%d,v%d)", i, s, x, y, z);
        if (st == OOM && !rec)
        {
            envDamaged();
            return true;
        }
        if (failed(st, "expression"))
            return true;
        VarM& m = pool[i].m;
        m.val = val;
        if (rec)
        {
            Event e;
            addOps(e, s, d, mx, my, mz);
            if (!pool[i].p->shouldRecord())
            {
                ctx.fail("wrong-registration", "result of expression is not registered");
                return true;
            }
            recordInto(m, *pool[i].p, e, true);
        }
        expectReg(m, *pool[i].p, "expression");
        checkValue("expression", *pool[i].p, m);
        return true;
    }
    bool argsReg(int s, const VarM& x, const VarM& y, const VarM& z)
    {
        return x.h >= 0 || (arity(s) > 1 && y.h >= 0) || (arity(s) > 2 && z.h >= 0);
    }
    void addOps(Event& e, int s, const F* d, const VarM& x, const VarM& y, const VarM& z)
    {
        addOp(e, d[0], x.h);
        if (arity(s) > 1)
            addOp(e, d[1], y.h);
        if (arity(s) > 2)
            addOp(e, d[2], z.h);
    }

    // x = shape(...), where x may be among the arguments
    bool assignModelAndReal(int dst, int s, int x, int y, int z, double k, const char* what)
    {
        VarM &m = *vm(dst), &mx = *vm(x), &my = *vm(y), &mz = *vm(z);
        if (!assignable(m) || !usable(mx) || !usable(my) || !usable(mz))
            return false;
        bool rec = argsReg(s, mx, my, mz) || m.h >= 0;
        if (rec && (!canRecord() || (m.h < 0 && !canRegister())))
            return false;
        F val, d[3];
        if (!evalModel(s, mx, my, mz, k, val, d))
            return false;
        A& r = *vp(dst);
        St st = lib([&] { assignShape<A, N>(r, s, *vp(x), *vp(y), *vp(z), N(k)); });
        return finishAssign(st, dst, rec, val, what, [&](Event& e) { addOps(e, s, d, mx, my, mz); });
    }
    template <class Fn>
    bool finishAssign(St st, int dst, bool rec, const F& val, const char* what, Fn ops)
    {
        VarM& m = *vm(dst);
        A& r = *vp(dst);
        if (st != OK)
        {
            if (st == OOM)
            {
                if (rec)
                    resync(r, m);
                m.moved = true;
                if (!rec)
                {
                    envDamaged();
                    return true;
                }
            }
            return failed(st, what);
        }
        m.moved = false;
        m.val = val;
        if (rec)
        {
            Event e;
            ops(e);
            if (!r.shouldRecord())
            {
                ctx.fail("wrong-registration", fmt("%s: result is not registered", what));
                return true;
            }
            recordInto(m, r, e, m.h < 0);
        }
        expectReg(m, r, what);
        checkValue(what, r, m);
        return true;
    }
    bool opExprAssign(const int64_t* a)
    {
        int i = idx(a[0]);
        int s = shapeOf(a[1]);
        int x = idx(a[2]), y = arity(s) > 1 ? idx(a[3]) : x, z = arity(s) > 2 ? idx(a[4]) : x;
        if (!vm(i)->on || !vm(x)->on || !vm(y)->on || !vm(z)->on)
            return false;
        text = fmt("v%d = shape%d(v%d,v%d,v%d)", i, s, x, y, z);
        return assignModelAndReal(i, s, x, y, z, constOf(a[5]), "assigning an expression");
    }

    bool opCompound(const int64_t* a)
    {
        int i = idx(a[0]), x = idx(a[2]);
        VarM &m = *vm(i), &mx = *vm(x);
        int kind = int(uint64_t(a[1]) % 18);
        if (!usable(m))
            return false;
        bool var = kind < 8;
        if (var && !usable(mx))
            return false;
        N k = N(constOf(a[3]));
        double dk = double(k);
        P pi(m.val), px(var ? mx.val : F(0.0)), r;
        pi.d[0] = F(1.0);
        px.d[1] = F(1.0);
        int ik = 1 + int(uint64_t(a[3]) % 2);
        bool scalarAdd = false, postfix = false;
        switch (kind)
        {
            case 0: r = pi + px; break;
            case 1: r = pi - px; break;
            case 2: r = pi * px; break;
            case 3: if (std::fabs(prim(mx.val)) < 0.2) return false; r = pi / px; break;
            case 4: r = pi + px * dk; break;
            case 5: r = pi - px * px; break;
            case 6: r = pi * sin(px); break;
            case 7: r = pi / (px * px + 1.0); break;
            case 8: r = pi + dk; scalarAdd = true; break;
            case 9: r = pi - dk; scalarAdd = true; break;
            case 10: r = pi * dk; break;
            case 11: r = pi / dk; break;
            case 12: r = pi + double(ik); scalarAdd = true; break;
            case 13: r = pi * double(ik); break;
            case 14: r = pi + 1.0; break;
            case 15: r = pi - 1.0; break;
            case 16: r = pi + 1.0; postfix = true; break;
            default: r = pi - 1.0; postfix = true; break;
        }
        if (!inRange(r.v) || !(norm(r.d[0]) < 1e6) || !(norm(r.d[1]) < 1e6))
            return false;
        bool rec = m.h >= 0 || (var && mx.h >= 0);
        if (rec && (!canRecord() || !canRegister()))
            return false;
        A& t = *vp(i);
        A* xp = var ? vp(x) : nullptr;
        double old = prim(m.val), oldRes = old;
        // same variable on both sides
        bool self = var && x == i;
        if (!std::is_floating_point<Real>::value)
            postfix = false;
        St st = lib([&] {
            switch (kind)
            {
                case 0: t += *xp; break;
                case 1: t -= *xp; break;
                case 2: t *= *xp; break;
                case 3: t /= *xp; break;
                case 4: t += *xp * k; break;
                case 5: t -= *xp * *xp; break;
                case 6: t *= sin(*xp); break;
                case 7: t /= *xp * *xp + N(1); break;
                default:
                    if constexpr (std::is_floating_point<Real>::value)
                        switch (kind)
                        {
                            case 8: t += k; break;
                            case 9: t -= k; break;
                            case 10: t *= k; break;
                            case 11: t /= k; break;
                            case 12: t += ik; break;
                            case 13: t *= ik; break;
                            case 14: ++t; break;
                            case 15: --t; break;
                            case 16: { A q = t++; oldRes = T::primal(static_cast<const A&>(q).value()); break; }
                            default: { A q = t--; oldRes = T::primal(static_cast<const A&>(q).value()); break; }
                        }
                    else   // those don't compile for nested types
                        switch (kind)
                        {
                            case 8: t = t + k; break;
                            case 9: t = t - k; break;
                            case 10: t = t * k; break;
                            case 11: t = t / k; break;
                            case 12: t = ik + t; break;
                            case 13: t = ik * t; break;
                            case 14: case 16: t = N(1) + t; break;
                            default: t = t - N(1); break;
                        }
            }
        });
        text = fmt("v%d kind %d v%d", i, kind, var ? x : -1);
        if (postfix && st == OK && std::fabs(oldRes - old) > 1e-6 && (prof.oracle & O_VALUE))
            ctx.fail("wrong-value", "postfix operator returned a different value");
        if (postfix && A0() >= 0)
        {
            // the temporary may have used another slot
            MT& mt = tapes[A0()];
            mt.everBelow = mt.validBelow = std::max(mt.validBelow + 1, mt.everBelow + 1);
        }
        // adding plain numbers isn't necessarily recorded, as it doesn't change derivatives - either
        // way is fine
        if (st == OK && scalarAdd)
        {
            m.val = r.v;
            if (m.h >= 0)
                tapes[m.tape].optional.insert(int(tapes[m.tape].ev.size()));
            expectReg(m, t, "compound assignment");
            checkValue("compound assignment", t, m);
            return true;
        }
        return finishAssign(st, i, rec, r.v, "compound assignment", [&](Event& e) {
            if (self)
                addOp(e, r.d[0] + r.d[1], m.h);
            else
            {
                addOp(e, r.d[0], m.h);
                if (var)
                    addOp(e, r.d[1], mx.h);
            }
        });
    }

    bool opCopyNew(const int64_t* a)
    {
        int i = int(uint64_t(a[0]) % NV), x = idx(a[1]);
        if (pool[i].m.on || !usable(*vm(x)))
            return false;
        VarM& mx = *vm(x);
        bool rec = mx.h >= 0;
        if (rec && !canRegister())
            return false;
        St st = construct(i, [&](void* mem) { return ::new (mem) A(static_cast<const A&>(*vp(x))); });
        text = fmt("v%d = v%d", i, x);
        if (st == OOM && !rec)
        {
            envDamaged();
            return true;
        }
        if (failed(st, "copying"))
            return true;
        VarM& m = pool[i].m;
        m.val = mx.val;
        if (rec)
        {
            if (!pool[i].p->shouldRecord())
            {
                ctx.fail("wrong-registration", "copy is not registered");
                return true;
            }
            Event e;
            addOp(e, F(1.0), mx.h);
            recordInto(m, *pool[i].p, e, true);
        }
        expectReg(m, *pool[i].p, "copy");
        checkValue("copy", *pool[i].p, m);
        return true;
    }
    bool opCopyAssign(const int64_t* a)
    {
        int i = idx(a[0]), x = idx(a[1]);
        VarM &m = *vm(i), &mx = *vm(x);
        if (!assignable(m) || !usable(mx))
            return false;
        bool rec = m.h >= 0 || mx.h >= 0;
        if (rec && (!canRecord() || (m.h < 0 && !canRegister())))
            return false;
        F val = mx.val;
        int hx = mx.h;
        text = fmt("v%d = v%d", i, x);
        St st = lib([&] { *vp(i) = static_cast<const A&>(*vp(x)); });
        return finishAssign(st, i, rec, val, "copy assignment", [&](Event& e) { addOp(e, F(1.0), hx); });
    }
    bool opMoveNew(const int64_t* a)
    {
        int i = int(uint64_t(a[0]) % NV), x = idx(a[1]);
        if (pool[i].m.on || !usable(*vm(x)))
            return false;
        VarM& mx = *vm(x);
        curFault = 0;
        St st = construct(i, [&](void* mem) { return ::new (mem) A(std::move(*vp(x))); });
        text = fmt("v%d = move(v%d)", i, x);
        if (failed(st, "moving"))
            return true;
        VarM& m = pool[i].m;
        m.val = mx.val;
        m.h = mx.h;
        m.tape = mx.tape;
        mx.h = -1;
        mx.tape = -1;
        mx.moved = true;
        expectReg(m, *pool[i].p, "move");
        expectReg(mx, *vp(x), "moved-from variable");
        checkValue("move", *pool[i].p, m);
        return true;
    }
    bool opMoveAssign(const int64_t* a)
    {
        int i = idx(a[0]), x = idx(a[1]);
        VarM &m = *vm(i), &mx = *vm(x);
        if (i == x || !assignable(m) || !usable(mx))
            return false;
        if ((m.h >= 0 || mx.h >= 0) && A0() < 0)
            return false;
        curFault = 0;
        text = fmt("v%d = move(v%d)", i, x);
        St st = lib([&] { *vp(i) = std::move(*vp(x)); });
        if (failed(st, "move assignment"))
            return true;
        int oldH = m.h, oldT = m.tape;
        F v = mx.val;
        m.h = mx.h;
        m.tape = mx.tape;
        m.val = v;
        m.moved = false;
        mx.h = oldH;
        mx.tape = oldT;
        mx.moved = true;
        // the old registration either goes to the moved-from variable, or is released
        if (oldH >= 0 && !vp(x)->shouldRecord())
            killHandle(mx);
        expectReg(m, *vp(i), "move assignment");
        checkValue("move assignment", *vp(i), m);
        return true;
    }
    bool opSwap(const int64_t* a)
    {
        int i = idx(a[0]), x = idx(a[1]);
        VarM &m = *vm(i), &mx = *vm(x);
        if (i == x || !usable(m) || !usable(mx))
            return false;
        curFault = 0;
        text = fmt("v%d <-> v%d", i, x);
        St st = lib([&] {
            using std::swap;
            swap(*vp(i), *vp(x));
        });
        if (failed(st, "swap"))
            return true;
        std::swap(m, mx);
        expectReg(m, *vp(i), "swap");
        expectReg(mx, *vp(x), "swap");
        checkValue("swap", *vp(i), m);
        checkValue("swap", *vp(x), mx);
        return true;
    }
    bool opSet(const int64_t* a)
    {
        int i = idx(a[0]);
        VarM& m = *vm(i);
        if (!assignable(m))
            return false;
        bool rec = m.h >= 0;
        if (rec && !canRecord())
            return false;
        double v = codeVal(a[1]);
        text = fmt("v%d = %g", i, v);
        St st = lib([&] { *vp(i) = N(v); });
        return finishAssign(st, i, rec, F(double(N(v))), "assigning a number", [](Event&) {});
    }
    // changing the value directly doesn't record anything
    bool opEdit(const int64_t* a)
    {
        int i = idx(a[0]);
        VarM& m = *vm(i);
        if (!usable(m))
            return false;
        double v = codeVal(a[1]);
        text = fmt("value(v%d) = %g", i, v);
        St st = lib([&] { T::make(xad::value(*vp(i)), env, v, a[1]); });
        if (st == OOM)
        {
            m.moved = true;
            envDamaged();
            return true;
        }
        if (failed(st, "changing the value"))
            return true;
        m.val = T::makeF(v, a[1]);
        checkValue("changing the value", *vp(i), m);
        return true;
    }
    bool opDestroy(const int64_t* a)
    {
        int i = int(uint64_t(a[0]) % NV);
        if (!pool[i].m.on || !destroyable(pool[i].m))
            return false;
        text = fmt("v%d", i);
        destroyVar(i);
        return true;
    }
    // many statements at once
    bool opBurst(const int64_t* a)
    {
        int i = idx(a[0]), x = idx(a[1]);
        int n = 5 + int(uint64_t(a[2]) % 120);
        int kind = int(uint64_t(a[3]) % 4);
        VarM &m = *vm(i), &mx = *vm(x);
        if (!usable(m) || !usable(mx) || A0() < 0 || m.h < 0)
            return false;
        const int shape = kind == 0 ? 60 : kind == 1 ? 44 : kind == 2 ? 69 : 63;
        int s = shape;
        bool any = false;
        curFault = 0;
        for (int j = 0; j < n && !ctx.failed; ++j)
        {
            if (!canRegister())
                break;
            s = kind == 1 && j % 2 ? 45 : shape;
            if (T::hasInnerTape)
            {
                // the inner tapes record the sweeps too: limit the growth of their adjoints along the
                // chain, as these may cancel while the errors do not
                F val, d[3];
                if (!evalModel(s, m, mx, (j & 1) ? m : mx, constOf(j), val, d))
                    break;
                double g = norm(d[0]);
                if (arity(s) > 1)
                    g += norm(d[1]);
                if (arity(s) > 2)
                    g += norm(d[2]);
                if (m.gain * g > 1e4)
                {
                    s = 41;   // halve it
                    g = 0.5;
                }
                m.gain = std::max(1.0, m.gain * g);
            }
            if (!assignModelAndReal(i, s, i, x, (j & 1) ? i : x, constOf(j), "assigning an expression"))
                break;
            any = true;
            ctx.count("statements");
        }
        text = fmt("v%d = f(v%d, v%d) x %d", i, i, x, n);
        return any;
    }

    // a computation with complex numbers, all of them temporary
    bool opComplex(const int64_t* a)
    {
        const int i = idx(a[0]), x = idx(a[2]), y = idx(a[3]), z = idx(a[4]);
        VarM &m = *vm(i), &mx = *vm(x), &my = *vm(y), &mz = *vm(z);
        if (A0() < 0 || !canRecord() || !canRegister() || !assignable(m) || !usable(mx) || !usable(my) || !usable(mz))
            return false;
        const double k = constOf(a[5]);
        const double e0 = codeVal(a[1]), e1 = codeVal(a[1] + 1);
        F val, d[3];
        {
            P px(mx.val), py(my.val), pz(mz.val), r;
            px.d[0] = F(1.0);
            py.d[1] = F(1.0);
            pz.d[2] = F(1.0);
            const Cx<P> extra{P(F(e0)), P(F(e1))};
            illConditioned = false;
            bool fine = true;
            cplxProgram<Cx<P>>(r, a[1], px, py, pz, k, &extra, [&](const Cx<P>& q) {
                fine = fine && sim::norm(q.re) < 1e4 && sim::norm(q.im) < 1e4;
            });
            if (!fine || illConditioned || !inRange(r.v))
                return false;
            val = r.v;
            for (int j = 0; j < 3; ++j)
            {
                d[j] = r.d[j];
                if (!(norm(d[j]) < 1e4))
                    return false;
            }
        }
        MT& t = tapes[A0()];
        A& r = *vp(i);
        bool regd = true;
        St st = lib([&] {
            std::complex<A> extra{A(N(e0)), A(N(e1))};
            if (a[1] & 4)
            {
                t.real->registerInput(extra);
                regd = extra.real().shouldRecord() && extra.imag().shouldRecord();
                if (a[1] & 8)
                {
                    std::vector<std::complex<A>> v(2);
                    t.real->registerInputs(v);
                    t.real->registerOutput(v[1]);
                    regd = regd && v[1].imag().shouldRecord();
                }
            }
            cplxProgram<std::complex<A>>(r, a[1], *vp(x), *vp(y), *vp(z), N(k), &extra, [](const std::complex<A>&) {});
        });
        text = fmt("v%d = complex(v%d, v%d, v%d)", i, x, y, z);
        // temporaries may have used any slots
        t.peak = std::max(t.peak, t.live + 40);
        t.everBelow += 64;
        t.validBelow = t.everBelow;
        ctx.count("complex_programs");
        if (st == OK && !regd)
            ctx.fail("wrong-registration", "complex number isn't registered");
        if (st == OK && !r.shouldRecord())
        {
            // nothing registered contributed
            const VarM* in[3] = {&mx, &my, &mz};
            for (int j = 0; j < 3; ++j)
                if (in[j]->h >= 0 && !isZero(d[j]))
                    ctx.fail("wrong-registration", "result of complex numbers is not registered");
            if (m.h >= 0)
                ctx.fail("wrong-registration", "assigned variable is not registered anymore");
            m.moved = false;
            m.val = val;
            t.optional.insert(int(t.ev.size()));   // statements of the temporaries
            checkValue("complex numbers", r, m);
            return true;
        }
        return finishAssign(st, i, true, val, "complex numbers", [&](Event& e) {
            addOp(e, d[0], mx.h);
            addOp(e, d[1], my.h);
            addOp(e, d[2], mz.h);
        });
    }

    // ------------------------------------------------------------------ containers
    bool opContainer(int code, const int64_t* a)
    {
        std::vector<A>& c = *cv;
        size_t n = c.size();
        curFault = 0;
        auto allMine = [&] {
            for (auto& m : cm)
                if (!mine(m) )
                    return false;
            return true;
        };
        if (!allMine())
            return false;
        switch (code)
        {
            case C_PUSH:
            {
                int x = idx(a[0]);
                VarM mx = *vm(x);
                if (int(n) >= NC || !usable(mx))
                    return false;
                int kind = int(uint64_t(a[1]) % 3);
                if (kind == 0 && mx.h >= 0 && !canRegister())
                    return false;
                if (kind == 1 && x >= NV)
                    kind = 0;   // no moving from elements
                if (kind == 0 && mx.h >= 0 && !canRegister())
                    return false;
                double v = codeVal(a[2]);
                text = fmt("push v%d kind %d", x, kind);
                if (!must("push_back", [&] {
                        if (kind == 0)
                            c.push_back(*vp(x));
                        else if (kind == 1)
                            c.push_back(std::move(*vp(x)));
                        else
                            c.emplace_back(N(v));
                    }))
                    return true;
                VarM m;
                m.on = true;
                if (kind == 0)
                {
                    m.val = mx.val;
                    cm.push_back(m);
                    if (mx.h >= 0)
                    {
                        Event e;
                        addOp(e, F(1.0), mx.h);
                        recordInto(cm.back(), c.back(), e, true);
                    }
                }
                else if (kind == 1)
                {
                    cm.push_back(mx);
                    VarM& o = *vm(x);
                    o.h = -1;
                    o.tape = -1;
                    o.moved = true;
                }
                else
                {
                    m.val = F(double(N(v)));
                    cm.push_back(m);
                }
                break;
            }
            case C_CROWD:
            {
                // many variables at once
                const int x = idx(a[0]);
                if (x >= NV || !usable(*vm(x)) || int(n) >= NC)
                    return false;
                const VarM mx = *vm(x);
                const int more = 20 + int(uint64_t(a[1]) % 260);
                if (a[3] % 2)
                    c.reserve(n + size_t(more));
                text = fmt("push %d variables, from v%d", more, x);
                for (int j = 0; j < more; ++j)
                {
                    if (mx.h >= 0 && !canRegister())
                        break;
                    const int kind = int(uint64_t(a[2] >> j % 24) % 3);
                    const double k = constOf(j) * 0.5;
                    VarM m;
                    m.on = true;
                    F val = F(double(N(k))), d[3];
                    if (kind == 1)
                        val = mx.val;
                    else if (kind == 2 && !evalModel(21, mx, mx, mx, k, val, d))
                        break;
                    if (!must("push_back", [&] {
                            if (kind == 0)
                                c.emplace_back(N(k));
                            else if (kind == 1)
                                c.push_back(*vp(x));
                            else
                                c.push_back(A(*vp(x) * N(k)));
                        }))
                        return true;
                    m.val = val;
                    cm.push_back(m);
                    if (kind && mx.h >= 0)
                    {
                        Event e;
                        addOp(e, kind == 1 ? F(1.0) : d[0], mx.h);
                        recordInto(cm.back(), c.back(), e, true);
                    }
                }
                ctx.count("crowds");
                break;
            }
            case C_POP:
                if (n == 0 || !destroyable(cm.back()))
                    return false;
                must("pop_back", [&] { c.pop_back(); });
                killHandle(cm.back());
                cm.pop_back();
                break;
            case C_INSERT:
            {
                int x = idx(a[0]);
                VarM mx = *vm(x);
                if (int(n) >= NC || !usable(mx) || (mx.h >= 0 && !canRegister()))
                    return false;
                size_t pos = size_t(uint64_t(a[1]) % (n + 1));
                text = fmt("insert v%d at %d", x, int(pos));
                if (!must("insert", [&] { c.insert(c.begin() + long(pos), static_cast<const A&>(*vp(x))); }))
                    return true;
                VarM m;
                m.on = true;
                m.val = mx.val;
                cm.insert(cm.begin() + long(pos), m);
                if (mx.h >= 0)
                {
                    Event e;
                    addOp(e, F(1.0), mx.h);
                    recordInto(cm[pos], c[pos], e, true);
                }
                break;
            }
            case C_ERASE:
            {
                if (n == 0)
                    return false;
                size_t pos = size_t(uint64_t(a[1]) % n);
                size_t len = 1 + size_t(uint64_t(a[2]) % 3);
                len = std::min(len, n - pos);
                for (size_t i = pos; i < pos + len; ++i)
                    if (!destroyable(cm[i]))
                        return false;
                text = fmt("erase %d+%d", int(pos), int(len));
                must("erase", [&] { c.erase(c.begin() + long(pos), c.begin() + long(pos + len)); });
                for (size_t i = pos; i < pos + len; ++i) killHandle(cm[i]);
                cm.erase(cm.begin() + long(pos), cm.begin() + long(pos + len));
                break;
            }
            case C_RESIZE:
            {
                size_t s = size_t(uint64_t(a[0]) % NC);
                for (size_t i = s; i < n; ++i)
                    if (!destroyable(cm[i]))
                        return false;
                text = fmt("resize %d", int(s));
                must("resize", [&] { c.resize(s); });
                while (cm.size() > s)
                {
                    killHandle(cm.back());
                    cm.pop_back();
                }
                while (cm.size() < s)
                {
                    cm.emplace_back();
                    cm.back().on = true;
                    cm.back().val = F(0.0);
                }
                break;
            }
            case C_CLEAR:
                for (auto& m : cm)
                    if (!destroyable(m))
                        return false;
                must("clear", [&] {
                    if (a[0] % 2)
                        c.clear();
                    else
                        std::vector<A>().swap(c);
                });
                for (auto& m : cm) killHandle(m);
                cm.clear();
                break;
            case C_PERMUTE:
            {
                if (n < 2)
                    return false;
                for (auto& m : cm)
                    if (m.moved)
                        return false;
                int kind = int(uint64_t(a[0]) % 3);
                size_t r = size_t(uint64_t(a[1]) % n);
                std::vector<size_t> order(n);
                for (size_t i = 0; i < n; ++i) order[i] = i;
                if (kind == 0)
                    std::reverse(order.begin(), order.end());
                else if (kind == 1)
                    std::rotate(order.begin(), order.begin() + long(r), order.end());
                else
                {
                    std::vector<double> v;
                    for (auto& m : cm) v.push_back(prim(m.val));
                    for (size_t i = 0; i < n; ++i)
                        for (size_t j = i + 1; j < n; ++j)
                            if (std::fabs(v[i] - v[j]) < 1e-6)
                                return false;
                    std::sort(order.begin(), order.end(), [&](size_t i, size_t j) { return v[i] < v[j]; });
                }
                text = fmt("kind %d", kind);
                must("permuting", [&] {
                    if (kind == 0)
                        std::reverse(c.begin(), c.end());
                    else if (kind == 1)
                        std::rotate(c.begin(), c.begin() + long(r), c.end());
                    else
                        std::sort(c.begin(), c.end());
                });
                std::vector<VarM> nm;
                for (size_t i : order) nm.push_back(cm[i]);
                cm = nm;
                break;
            }
            case C_REGISTER:
            {
                if (n == 0 || A0() < 0 || !canRegister())
                    return false;
                for (auto& m : cm)
                    if (!usable(m))
                        return false;
                TapeT* t = tapes[A0()].real;
                must("registering a vector", [&] {
                    if (a[0] % 2)
                        t->registerInputs(c);
                    else
                        t->registerOutputs(c);
                });
                for (size_t i = 0; i < n; ++i)
                    if (cm[i].h < 0 && c[i].shouldRecord())
                    {
                        Event e;
                        recordInto(cm[i], c[i], e, true);
                    }
                break;
            }
        }
        if (c.size() != cm.size())
        {
            ctx.fail("harness", "container size");
            return true;
        }
        for (size_t i = 0; i < cm.size() && !ctx.failed; ++i)
        {
            expectReg(cm[i], c[i], "container element");
            if (!cm[i].moved)
                checkValue("container element", c[i], cm[i]);
        }
        return true;
    }

    // a variable becomes a sum of all elements
    bool opSum(const int64_t* a)
    {
        const int i = int(uint64_t(a[0]) % NV);
        if (cm.size() < 2 || A0() < 0 || !assignable(*vm(i)) || !usable(*vm(i)) || vm(i)->h < 0)
            return false;
        curFault = 0;
        bool any = false;
        for (int j = 0; j < int(cm.size()) && !ctx.failed; ++j)
        {
            if (!usable(cm[size_t(j)]) || !canRecord())
                continue;
            // alternating, so that the value stays small
            const int s = (prim(vm(i)->val) > 0) == (prim(cm[size_t(j)].val) > 0) ? 45 : 44;
            if (!assignModelAndReal(i, s, i, NV + j, i, 1, "assigning a sum"))
                continue;
            any = true;
        }
        text = fmt("v%d += all %d elements", i, int(cm.size()));
        return any;
    }

    // a statement that the client records itself, as for functions with known derivatives
    bool opHand(const int64_t* a)
    {
        const int i = idx(a[0]), x = idx(a[1]), y = idx(a[2]);
        const int ti = A0();
        VarM &m = *vm(i), &mx = *vm(x), &my = *vm(y);
        for (const VarM* v : {&m, &mx, &my})
            if (!usable(*v) || v->h < 0 || v->tape != ti || ti < 0)
                return false;
        if (!assignable(m) || !canRecord())
            return false;
        const double k = constOf(a[3]);
        const F val = mx.val * my.val * F(double(N(k)));
        const F d[2] = {my.val * F(double(N(k))), mx.val * F(double(N(k)))};
        if (!inRange(val))
            return false;
        TapeT* t = tapes[ti].real;
        A &r = *vp(i), &rx = *vp(x), &ry = *vp(y);
        text = fmt("v%d = v%d * v%d * %g", i, x, y, k);
        St st = lib([&] {
            const Real v = xad::value(rx) * xad::value(ry) * N(k);
            Real mul[2] = {xad::value(ry) * N(k), xad::value(rx) * N(k)};
            typename TapeT::slot_type slots[2] = {rx.getSlot(), ry.getSlot()};
            const auto lhs = r.getSlot();
            switch (a[4] & 3)
            {
                case 0:
                    t->pushRhs(mul[0], slots[0]);
                    t->pushRhs(mul[1], slots[1]);
                    t->pushLhs(lhs);
                    break;
                case 1:
                    t->pushRhs(std::move(mul[0]), slots[0]);
                    t->pushRhs(std::move(mul[1]), slots[1]);
                    t->pushLhs(lhs);
                    break;
                default: t->pushAll(lhs, mul, slots, 2); break;
            }
            xad::value(r) = v;
        });
        return finishAssign(st, i, true, val, "recording by hand", [&](Event& e) {
            addOp(e, d[0], mx.h);
            addOp(e, d[1], my.h);
        });
    }

    // ------------------------------------------------------------------ adjoints
    bool opSeed(const int64_t* a)
    {
        int i = idx(a[0]);
        VarM& m = *vm(i);
        if (!usable(m) || A0() < 0 || tapes[A0()].damaged)
            return false;
        MT& t = tapes[A0()];
        if (m.h < 0 && !canRegister())
            return false;
        if (m.h >= 0 && t.hs[size_t(m.h)].obscured && t.deadNonzero)
            return false;
        if (m.h >= 0 && t.hs[size_t(m.h)].slot >= t.clearedFrom)
            return false;
        const double scale = a[5] > 0 && a[5] < 1000 ? std::ldexp(1.0, -int(a[5])) : 1;
        double v = a[1] % 5 == 0 ? 0.0 : codeVal(a[2]) * scale;
        int kind = int(uint64_t(a[3]) % 6);
        if (m.h < 0 && kind >= 3)
            kind = 0;
        seedScale = std::max(seedScale, scale);
        A& x = *vp(i);
        text = fmt("derivative(v%d) %s %g", i, kind == 5 ? "+=" : "=", v);
        Real r = Real();
        bool wasUnreg = m.h < 0;
        St st = lib([&] {
            T::make(r, env, v, a[2]);
            switch (kind)
            {
                case 0: xad::derivative(x) = r; break;
                case 1: x.setDerivative(r); break;
                case 2: x.setAdjoint(r); break;
                case 3: t.real->setDerivative(x.getSlot(), r); break;
                case 4: t.real->derivative(x.getSlot()) = r; break;
                default: xad::derivative(x) += r; break;
            }
        });
        if (st != OK)
        {
            if (st == OOM)
                resync(x, m);
            return failed(st, "setting a derivative");
        }
        if (wasUnreg)
        {
            if (!x.shouldRecord())
            {
                ctx.fail("wrong-registration", "variable is not registered after setting its derivative");
                return true;
            }
            Event e;
            recordInto(m, x, e, true);
        }
        t.init = true;
        HI& h = t.hs[size_t(m.h)];
        F f = T::makeF(v, a[2]);
        if (kind == 5)
            h.adj = h.adj + f;
        else
            h.adj = f;
        h.err = kind == 5 ? h.err + T::eps() * norm(h.adj) : 0;
        if (!(norm(h.adj) < 1e18))
        {
            // too large for a comparison
            h.adj = F(0.0);
            must("resetting a derivative", [&] { xad::derivative(x) = Real(); });
        }
        h.obscured = false;
        ctx.count("seeds");
        return true;
    }

    bool opResetTo(const int64_t* a)
    {
        int ti = A0();
        if (ti < 0 || tapes[ti].damaged || tapes[ti].pos.empty())
            return false;
        MT& t = tapes[ti];
        Pos p = t.pos[pickPos(t, a[0])];
        text = fmt("to %d of %d", p.ev, int(t.ev.size()));
        TapeT* r = t.real;
        if (failed(lib([&] { r->resetTo(p.real); }), "resetTo"))
            return true;
        checkPolluted(t, p.ev);
        truncate(t, size_t(p.ev), true);
        // also positions with operations in between that aren't known to the model
        for (size_t i = t.pos.size(); i > 0; --i)
            if (t.pos[i - 1].real > p.real)
                t.pos.erase(t.pos.begin() + long(i - 1));
        return true;
    }
    // Only for positions where the variable of the last statement has the highest slot in use, see
    // the known findings.
    bool opClearAfter(const int64_t* a)
    {
        int ti = A0();
        if (ti < 0 || tapes[ti].damaged || tapes[ti].pos.empty() || sub)
            return false;
        MT& t = tapes[ti];
        Pos p = t.pos[pickPos(t, a[0])];
        if (p.ev == 0 || !t.init)
            return false;
        const Event& e = t.ev[size_t(p.ev - 1)];
        if (e.ckpt >= 0 || t.optional.count(p.ev))
            return false;
        unsigned s = t.hs[size_t(e.lhs)].slot;
        for (auto& h : t.hs)
            if (h.regEv <= p.ev && h.slot > s)
                return false;
        bool reset = a[1] % 2 == 0;
        text = fmt("at %d of %d%s", p.ev, int(t.ev.size()), reset ? " and resetTo" : "");
        TapeT* r = t.real;
        const unsigned cleared = s + 1;
        if (failed(lib([&] {
                r->clearDerivativesAfter(p.real);
                if (reset)
                    r->resetTo(p.real);
            }),
                   "clearDerivativesAfter"))
            return true;
        t.clearedFrom = cleared;
        t.clearedStep = ctx.step;
        for (auto& h : t.hs)
            if (h.slot > s)
            {
                h.adj = F(0.0);
                h.err = 0;
                h.obscured = false;
            }
        if (reset)
        {
            checkPolluted(t, p.ev);
            truncate(t, size_t(p.ev), true);
        // also positions with operations in between that aren't known to the model
        for (size_t i = t.pos.size(); i > 0; --i)
            if (t.pos[i - 1].real > p.real)
                t.pos.erase(t.pos.begin() + long(i - 1));
        }
        recomputeDead(t);
        return true;
    }

    // ------------------------------------------------------------------ restart
    void afterRestart(MT& t)
    {
        t.optional.clear();
        t.clearedFrom = INV;
        truncate(t, 0, true);
        t.ckpts.clear();
        t.ev.clear();
        t.pos.clear();
        t.init = false;
        t.clearAdj();
        for (auto& h : t.hs)
        {
            h.stale = false;
            h.regEv = 0;
        }
        for (auto& cb : looseCbs) dropFrames(cb);
        for (auto& cb : t.owned) cb->frames.clear();
    }
    // frames of checkpoints that don't exist anymore on any tape
    void dropFrames(Cb* cb)
    {
        auto& f = cb->frames;
        for (size_t i = f.size(); i > 0; --i)
        {
            bool known = false;
            for (auto& t : tapes)
                for (auto& k : t.ckpts) known = known || k.id == f[i - 1].id;
            if (!known)
                f.erase(f.begin() + long(i - 1));
        }
    }
    // nested recordings that have not been finished when a recording is given up
    void leaveOpen(int ti, int64_t how)
    {
        MT& t = tapes[ti];
        if (how & 7 || ti != A0() || t.damaged || sub || T::hasInnerTape)
            return;
        TapeT* r = t.real;
        St st = lib([&] {
            for (int i = 0; i < 1 + int(how >> 3 & 1); ++i, how >>= 1)
            {
                r->newNestedRecording();
                A x = N(2);
                r->registerInput(x);
                A y = x * N(3);
                if (how & 32)
                    r->insertCallback(&trip);
                y *= x;
                if (how & 64)
                    y = abs(y);
                if (how & 128)
                {
                    xad::derivative(y) = Real(N(1));
                    if (!(how & 32))
                        r->computeAdjoints();
                }
            }
        });
        if (st != OK && failed(st, "nested recording"))
            curFault = 0;
        t.everBelow += 64;
        ctx.count("nested_left_open");
    }

    bool opNewRec(const int64_t* a)
    {
        int ti = tapeArg(a[0]);
        if (ti < 0)
            return false;
        MT& t = tapes[ti];
        if (t.oom && T::hasInnerTape)
            return false;
        // variables registered with a damaged tape need to be looked at
        if (t.damaged && ti != A0())
            return false;
        TapeT* r = t.real;
        leaveOpen(ti, a[5]);
        St st = lib([&] { r->newRecording(); });
        if (st == OOM)
        {
            damage(ti, true);
            return true;
        }
        if (failed(st, "newRecording"))
            return true;
        bool wasDamaged = t.damaged;
        t.damaged = false;
        t.oom = false;
        afterRestart(t);
        // drop old handles nobody refers to
        compact(ti);
        t.validBelow = 0;
        for (int i = 0, n = nvars(); i < n; ++i)
        {
            VarM& m = *vm(i);
            if (!m.on || m.tape != ti)
                continue;
            if (wasDamaged)
                resync(*vp(i), m);
            t.validBelow = std::max(t.validBelow, vp(i)->getSlot() + 1);
        }
        t.validBelow += 1;
#ifdef XAD_TAPE_REUSE_SLOTS
        if (t.leaky || t.slotLeaky)
            t.validBelow = t.everBelow + 2;
#else
        // only slots at the end are given back
        t.validBelow = t.everBelow + 2;
#endif
        t.everBelow = std::max(t.everBelow, t.validBelow);
        ctx.count("restarts");
        if (wasDamaged)
            ctx.count("recoveries");
        return true;
    }
    // renumber handles (after a restart, when no events refer to them)
    void compact(int ti)
    {
        MT& t = tapes[ti];
        std::vector<HI> n;
        for (int i = 0, e = nvars(); i < e; ++i)
        {
            VarM& m = *vm(i);
            if (!m.on || m.tape != ti || m.h < 0)
                continue;
            HI h = t.hs[size_t(m.h)];
            m.h = int(n.size());
            n.push_back(h);
        }
        t.hs = n;
    }

    bool hasVars(int ti)
    {
        for (int i = 0, n = nvars(); i < n; ++i)
            if (vm(i)->on && vm(i)->tape == ti && vm(i)->h >= 0)
                return true;
        return false;
    }
    void destroyVarsOf(int ti)
    {
        for (int i = NV - 1; i >= 0; --i)
            if (pool[i].m.on && pool[i].m.tape == ti)
                destroyVar(i);
        bool any = false;
        for (auto& m : cm) any = any || (m.h >= 0 && m.tape == ti);
        if (any)
        {
            must("clear", [&] { cv->clear(); });
            for (auto& m : cm) killHandle(m);
            cm.clear();
        }
    }
    // destroying all variables is possible? (elements of the container may belong to other tapes)
    bool canDestroyVarsOf(int ti)
    {
        bool any = false, foreign = false;
        for (auto& m : cm)
        {
            any = any || (m.h >= 0 && m.tape == ti);
            foreign = foreign || (m.h >= 0 && m.tape != ti);
        }
        return !(any && foreign);
    }
    void resetTapeModel(MT& t)
    {
        afterRestart(t);
        t.hs.clear();
        t.damaged = t.oom = t.leaky = t.slotLeaky = false;
        t.live = 0;
        t.peak = 0;
        t.validBelow = 0;
    }

    bool opClearAll(const int64_t* a)
    {
        int ti = tapeArg(a[0]);
        if (ti < 0)
            return false;
        MT& t = tapes[ti];
        if (!canDestroyVarsOf(ti))
            return false;
        if (ti != A0() && hasVars(ti))
            return false;
        bool before = a[1] % 2 == 0;
        if (T::hasInnerTape && t.oom)
        {
            // the inner tape has to recover first
            before = true;
        }
        int fault = curFault;
        curFault = 0;
        if (before)
            destroyVarsOf(ti);
        if (T::hasInnerTape && t.oom)
        {
            for (int i = 0; i < NV; ++i)
                if (pool[i].m.on && pool[i].m.h < 0)
                    destroyVar(i);
            must("clear", [&] { cv->clear(); });
            for (auto& m : cm) killHandle(m);
            cm.clear();
        }
        curFault = fault;
        TapeT* r = t.real;
        leaveOpen(ti, a[5]);
        St st = lib([&] { r->clearAll(); });
        if (st == OOM)
        {
            damage(ti, true);
            return true;
        }
        if (failed(st, "clearAll"))
            return true;
        bool wasDamaged = t.damaged, wasOom = t.oom;
        if (!before)
            destroyVarsOf(ti);
        resetTapeModel(t);
        if (T::hasInnerTape && wasOom)
        {
            // all remaining users of the inner tape
            for (auto& cb : looseCbs) cb->frames.clear();
            env.reset();
        }
        ctx.count("clears");
        if (wasDamaged)
            ctx.count("recoveries");
        return true;
    }

    // ------------------------------------------------------------------ tapes
    bool opCreate(const int64_t* a)
    {
        if (sub)
            return false;
        int ti = int(uint64_t(a[0]) % NT);
        MT& t = tapes[ti];
        if (t.real)
            return false;
        if (T::hasInnerTape && prof.allocFaults)
            for (auto& o : tapes)
                if (o.real)
                    return false;
        bool activate = a[1] % 2 == 0;
        if (activate && A0() >= 0)
            activate = false;
        TapeT* p = nullptr;
        St st = lib([&] { p = new TapeT(activate); });
        text = fmt("tape %d%s", ti, activate ? " active" : "");
        if (st == OOM)
            return true;   // nothing created; active tape is checked by the invariants
        if (failed(st, "creating a tape"))
            return true;
        t = MT();
        t.real = p;
        if (activate)
        {
            t.activeOn = th;
            act[th] = ti;
        }
        ctx.count("tapes");
        return true;
    }
    bool opActivate(const int64_t* a)
    {
        int ti = int(uint64_t(a[0]) % NT);
        MT& t = tapes[ti];
        if (!t.real || A0() >= 0 || t.activeOn >= 0 || sub)
            return false;
        text = fmt("tape %d", ti);
        if (failed(lib([&] {
                if (a[1] % 2)
                    t.real->activate();
                else
                    TapeT::setActive(t.real);
            }),
                   "activate"))
            return true;
        act[th] = ti;
        t.activeOn = th;
        return true;
    }
    bool opDeact(const int64_t* a)
    {
        int ti = int(uint64_t(a[0]) % NT);
        MT& t = tapes[ti];
        if (!t.real || sub)
            return false;
        text = fmt("tape %d", ti);
        if (failed(lib([&] { t.real->deactivate(); }), "deactivate"))
            return true;
        if (A0() == ti)
        {
            act[th] = -1;
            t.activeOn = -1;
        }
        return true;
    }
    bool opTapeDestroy(const int64_t* a)
    {
        int ti = int(uint64_t(a[0]) % NT);
        MT& t = tapes[ti];
        if (!t.real || sub || (t.activeOn >= 0 && t.activeOn != th) || !canDestroyVarsOf(ti))
            return false;
        if (ti != A0() && hasVars(ti))
            return false;
        bool after = a[1] % 2 == 0;
        curFault = 0;
        if (!after)
            destroyVarsOf(ti);
        std::vector<int> serials;
        for (Cb* cb : t.owned) serials.push_back(cb->serial);
        long total = cbDestroyedTotal;
        TapeT* p = t.real;
        text = fmt("tape %d", ti);
        if (failed(lib([&] { delete p; }), "destroying a tape"))
            return true;
        checkDestroyed(serials, total);
        t.activeOn = -1;
        if (A0() == ti)
            act[th] = -1;
        t.real = nullptr;
        t.owned.clear();
        if (after)
            destroyVarsOf(ti);
        t.ckpts.clear();
        for (auto* cb : looseCbs) dropFrames(cb);
        t = MT();
        return true;
    }
    void checkDestroyed(const std::vector<int>& serials, long totalBefore)
    {
        if (!(prof.oracle & O_LIFE))
            return;
        for (int s : serials)
            if (cbDestroyed[size_t(s)] != 1)
            {
                ctx.fail("callback-lifetime", fmt("callback owned by the tape was destroyed %d times", cbDestroyed[size_t(s)]));
                return;
            }
        if (cbDestroyedTotal - totalBefore != long(serials.size()))
            ctx.fail("callback-lifetime", "callback not owned by the tape was destroyed");
    }
    bool opTapeMove(const int64_t* a)
    {
        int ti = int(uint64_t(a[0]) % NT);
        MT& t = tapes[ti];
        if (!t.real || sub || (t.activeOn >= 0 && t.activeOn != th))
            return false;
        TapeT* o = t.real;
        TapeT* n = nullptr;
        text = fmt("tape %d", ti);
        void* mem = ::operator new(sizeof(TapeT));
        std::memset(mem, ctx.fill, sizeof(TapeT));
        St st = lib([&] { n = ::new (mem) TapeT(std::move(*o)); });
        if (st != OK)
        {
            ctx.fail("unexpected-exception", "moving a tape has thrown");
            return true;
        }
        // hand over to normal storage
        TapeT* n2 = nullptr;
        if (a[1] % 2)
        {
            must("moving", [&] { n2 = new TapeT(std::move(*n)); });
            must("destroying a moved-from tape", [&] { n->~TapeT(); });
        }
        else
        {
            must("moving", [&] {
                n2 = new TapeT(false);
                *n2 = std::move(*n);
                n->~TapeT();
            });
        }
        ::operator delete(mem);
        t.real = n2;
        if (a[2] % 2)
            must("destroying a moved-from tape", [&] { delete o; });
        else
            husks.push_back(o);
        ctx.count("tape_moves");
        return checkOwned(ti);
    }
    bool opTapeMoveAssign(const int64_t* a)
    {
        int ti = int(uint64_t(a[0]) % NT), tj = int(uint64_t(a[1]) % NT);
        if (sub)
            return false;
        MT& s = tapes[ti];
        if (!s.real || (s.activeOn >= 0 && s.activeOn != th))
            return false;
        if (a[2] % 3 == 0 && !husks.empty())
        {
            // into a moved-from tape
            TapeT* h = husks.back();
            TapeT* o = s.real;
            text = fmt("tape %d into a moved-from one", ti);
            if (!must("move assignment", [&] { *h = std::move(*o); }))
                return true;
            husks.back() = o;
            s.real = h;
            ctx.count("tape_moves");
            return checkOwned(ti);
        }
        if (a[2] % 3 == 1)
        {
            // to itself
            TapeT* o = s.real;
            text = fmt("tape %d into itself", ti);
            TapeT& alias = *o;
            must("self move assignment", [&] { *o = std::move(alias); });
            return checkOwned(ti);
        }
        MT& d = tapes[tj];
        if (ti == tj || !d.real || (d.activeOn >= 0 && d.activeOn != th) || !canDestroyVarsOf(tj))
            return false;
        if (tj != A0() && hasVars(tj))
            return false;
        curFault = 0;
        destroyVarsOf(tj);
        std::vector<int> serials;
        for (Cb* cb : d.owned) serials.push_back(cb->serial);
        long total = cbDestroyedTotal;
        TapeT* dr = d.real;
        TapeT* sr = s.real;
        text = fmt("tape %d into tape %d", ti, tj);
        if (!must("move assignment", [&] { *dr = std::move(*sr); }))
            return true;
        checkDestroyed(serials, total);
        bool sActive = s.activeOn == th, dActive = d.activeOn == th;
        d.owned.clear();
        d.ckpts.clear();
        // variables keep referring to the model tape with index ti, which now lives in dr
        s.real = dr;
        for (auto* cb : looseCbs) dropFrames(cb);
        d = MT();
        husks.push_back(sr);
        if (dActive && !sActive)
            act[th] = -1;   // the assigned-to tape has taken over the inactive state
        ctx.count("tape_moves");
        return checkOwned(ti);
    }
    // a tape of a different type lives its own life
    bool opOther(const int64_t* a)
    {
        if (sub)
            return false;
        curFault = 0;
        typedef xad::AReal<typename OtherTape::value_type> OA;
        int anyActive = -1;
        for (int i = 0; i < NTH; ++i)
            if (otherActive[i])
                anyActive = i;
        switch (a[0] % 4)
        {
            case 0:
                if (other || otherVar)
                    return false;
                must("other tape", [&] { other = new OtherTape(false); });
                return true;
            case 1:
                if (!other || anyActive >= 0)
                    return false;
                must("other tape", [&] { other->activate(); });
                otherActive[th] = true;
                return true;
            case 2:
                if (!other)
                    return false;
                must("other tape", [&] { other->deactivate(); });
                otherActive[th] = false;
                return true;
            default:
                if (!other || !otherActive[th])
                    return false;
                must("other tape", [&] {
                    OA x(3), y;
                    other->registerInput(x);
                    other->newRecording();
                    y = x * x + 1;
                    other->registerOutput(y);
                    xad::derivative(y) = 1;
                    other->computeAdjoints();
                    if (xad::derivative(x) != 6)
                    {
                        Out o;
                        ctx.fail("wrong-adjoint", "tape of another type");
                    }
                });
                return true;
        }
    }

    // ------------------------------------------------------------------ behaves as new
    // Runs the same steps on the restarted tape and on one that has just been created: all
    // observations have to be identical.
    bool opCanon(const int64_t* a);

    // ------------------------------------------------------------------ checkpoints
    bool opInsert(const Op& op)
    {
        const int64_t* a = op.a;
        if (A0() < 0 || !canRegister())
            return false;
        MT& t = tapes[A0()];
        Rng r{uint64_t(a[0])};
        int kind = int(r.below(CB_NKINDS));
        int nin = 1 + int(r.below(3)), nout = 1 + int(r.below(2));
        bool inplace = r.chance(25);
        if (inplace)
            nin = nout = 1;
        // inputs: registered variables
        std::vector<int> cand;
        for (int i = 0, n = nvars(); i < n; ++i)
        {
            VarM& m = *vm(i);
            if (usable(m) && m.h >= 0 && m.tape == A0())
                cand.push_back(i);
        }
        if (cand.empty())
            return false;
        Ckpt k;
        k.id = nextCkpt;
        Frame fr;
        fr.id = nextCkpt;
        std::vector<F> xf;
        std::vector<int> ins;
        for (int i = 0; i < nin; ++i)
        {
            int v = cand[size_t(r.below(cand.size()))];
            ins.push_back(v);
            VarM& m = *vm(v);
            k.in.push_back(m.h);
            xf.push_back(m.val);
        }
        std::vector<int> outs;
        if (inplace)
            outs.push_back(ins[0]);
        else
            for (int i = 0; i < NV && int(outs.size()) < nout; ++i)
                if (!pool[i].m.on)
                    outs.push_back(i);
        if (int(outs.size()) < nout)
            return false;
        fr.prog = makeProg(a[1], kind, nin, nout);
        std::vector<F> yf;
        if (!progModel(fr.prog, xf, yf, k.d, k.amp))
            return false;
        int mode = int(uint64_t(a[2]) % 4);   // how the callback object is owned
        Cb* cb = nullptr;
        bool fresh = true;
        if (mode == 0)
        {
            // same object for several checkpoints
            for (Cb* c : looseCbs)
                if (onlyOn(c, A0()))
                    cb = c;
            if (cb)
                fresh = false;
        }
        else if (mode == 1 && !t.owned.empty())
        {
            cb = t.owned.back();
            fresh = false;
        }
        if (!cb && looseCbs.size() + t.owned.size() > 25)
            return false;
        if (!cb)
            cb = new Cb(this);
        bool own = fresh && mode >= 2;
        std::vector<Real> y;
        bool pushed = false, inserted = false;
        for (int o : outs)
            if (!inplace)
            {
                pool[o].p = nullptr;
            }
        std::vector<void*> mem;
        std::vector<A*> made;
        if (!inplace)
            for (size_t i = 0; i < outs.size(); ++i) mem.push_back(rawVar());
        std::vector<Real> xr;
        St st = lib([&] {
            try
            {
                for (int v : ins)
                {
                    fr.x.push_back(static_cast<const A&>(*vp(v)).value());
                    fr.in.push_back(vp(v)->getSlot());
                }
                progReal(fr.prog, fr.x, y);
                for (size_t i = 0; i < outs.size(); ++i)
                {
                    if (inplace)
                    {
                        xad::value(*vp(outs[0])) = y[0];
                        fr.out.push_back(vp(outs[0])->getSlot());
                        break;
                    }
                    A* p = ::new (mem[i]) A();
                    made.push_back(p);
                    xad::value(*p) = y[i];
                    t.real->registerOutput(*p);
                    fr.out.push_back(p->getSlot());
                }
                if (own)
                {
                    t.real->pushCallback(cb);
                    pushed = true;
                }
                t.real->insertCallback(cb);
                inserted = true;
            }
            catch (...)
            {
                for (A* p : made) p->~A();
                made.clear();
                throw;
            }
        });
        text = fmt("kind %d inputs %d outputs %d%s%s", kind, nin, nout, inplace ? " in place" : "", own ? " owned" : "");
        ++nextCkpt;
        if (fresh)
        {
            if (pushed)
                t.owned.push_back(cb);
            else
                looseCbs.push_back(cb);
        }
        if (st != OK)
        {
            for (void* m : mem) freeRaw(m);
            if (inplace)
                vm(outs[0])->moved = true;
            if (T::hasInnerTape)
                envDamaged();
            return failed(st, "inserting a checkpoint");
        }
        (void)inserted;
        for (size_t i = 0; i < outs.size(); ++i)
        {
            if (inplace)
            {
                VarM& m = *vm(outs[0]);
                m.val = yf[0];
                checkValue("checkpoint output", *vp(outs[0]), m);
                k.out.push_back(m.h);
                break;
            }
            PoolVar& v = pool[outs[i]];
            v.p = made[i];
            v.m = VarM();
            v.m.on = true;
            v.m.val = yf[i];
            Event e;
            recordInto(v.m, *v.p, e, true);
            k.out.push_back(v.m.h);
            checkValue("checkpoint output", *v.p, v.m);
        }
        cb->frames.push_back(std::move(fr));
        k.cb = cb;
        Event e;
        e.ckpt = int(t.ckpts.size());
        t.ckpts.push_back(k);
        t.ev.push_back(e);
        // callbacks may register variables beyond those in use
        t.validBelow = t.everBelow + 64;
        t.everBelow += 64;
        ctx.count("checkpoints");
        return checkOwned(A0());
    }
    bool onlyOn(Cb* cb, int ti)
    {
        for (auto& f : cb->frames)
        {
            bool here = false;
            for (auto& k : tapes[ti].ckpts) here = here || k.id == f.id;
            if (!here)
                return false;
        }
        return true;
    }

    // a nested recording outside of a callback
    bool opNestedBlock(const int64_t* a)
    {
        if (A0() < 0 || !canRegister() || sub)
            return false;
        MT& t = tapes[A0()];
        Prog pr = makeProg(a[0], CB_NEST, 1 + int(uint64_t(a[1]) % 2), 1);
        pr.style &= ~4;
        std::vector<F> xf, yf;
        std::vector<std::vector<F>> d;
        // inputs: variables of the outer recording, new or existing
        std::vector<int> in;
        for (int i = 0; i < pr.nin; ++i)
        {
            int v = idx(a[3 + i]);
            bool old = a[5] >> i & 1 && usable(*vm(v)) && vm(v)->h >= 0 && (i == 0 || in[0] != v) &&
                       !(t.init && t.hs[size_t(vm(v)->h)].obscured);
            in.push_back(old ? v : -1);
            xf.push_back(old ? vm(v)->val : T::makeF(codeVal(a[2] + i), a[2] + i));
        }
        double amp;
        if (!progModel(pr, xf, yf, d, amp))
            return false;
        const bool mayMove = prof.w[T_MOVE] > 0;
        std::vector<Real> got;
        std::vector<std::unique_ptr<A>> own;
        std::vector<A*> X;
        St st = lib([&] {
            for (int i = 0; i < pr.nin; ++i)
            {
                if (in[size_t(i)] >= 0)
                {
                    X.push_back(vp(in[size_t(i)]));
                    continue;
                }
                own.push_back(std::unique_ptr<A>(new A()));
                X.push_back(own.back().get());
                T::make(xad::value(*X.back()), env, codeVal(a[2] + i), a[2] + i);
                t.real->registerInput(*X.back());
            }
            std::vector<std::unique_ptr<A>> W;
            std::vector<std::unique_ptr<InnerCb>> inner;
            auto V = [&](int k) -> A& { return k < pr.nin ? *X[size_t(k)] : *W[size_t(k - pr.nin)]; };
            if (a[1] & 256)
                abandon(t.real, int(a[1] >> 9), *X[0]);
            // the tape may move while the nested recording is open
            struct Nested
            {
                MT& t;
                explicit Nested(MT& tape) : t(tape) { t.real->newNestedRecording(); }
                ~Nested() { t.real->endNestedRecording(); }
            } nested(t);
            const int moveAt = mayMove && (a[1] >> 24 & 3) ? int(uint64_t(a[1] >> 26) % (pr.steps.size() + 2)) : -1;
            auto moveHere = [&](int step) {
                if (step != moveAt)
                    return;
                TapeT *o = t.real, *n;
                if (a[1] >> 32 & 1)
                    n = new TapeT(std::move(*o));
                else
                {
                    std::unique_ptr<TapeT> np(new TapeT(false));
                    if (a[1] >> 33 & 1)
                        np->newRecording();
                    n = np.release();
                    *n = std::move(*o);
                }
                t.real = n;
                Out out;
                husks.push_back(o);
                ctx.count("tape_moves_in_nested_recordings");
            };
            int at = 0;
            moveHere(at++);
            if (pr.misuse)
                misuseWithin(t.real, pr.misuse >> 8, true);
            for (auto& s : pr.steps)
            {
                std::unique_ptr<A> n(new A());
                if (s.shape < 0)
                {
                    inner.push_back(std::unique_ptr<InnerCb>(new InnerCb()));
                    InnerCb& ic = *inner.back();
                    ic.w = this;
                    ic.k[0] = s.k;
                    ic.k[1] = s.k2;
                    ic.style = pr.style;
                    xad::value(*n) = xad::value(V(s.a)) * N(s.k) + xad::value(V(s.b)) * N(s.k2);
                    t.real->registerOutput(*n);
                    ic.in[0] = V(s.a).getSlot();
                    ic.in[1] = V(s.b).getSlot();
                    ic.out = n->getSlot();
                    t.real->insertCallback(&ic);
                }
                else
                    assignShape<A, N>(*n, s.shape, V(s.a), V(s.b), V(s.c), N(s.k));
                W.push_back(std::move(n));
                if (int(W.size()) - 1 == pr.mid)
                    inside(t.real, pr.midHow, *W.back());
                moveHere(at++);
            }
            t.real->registerOutput(*W.back());
            xad::derivative(*W.back()) = Real(N(1));
            moveHere(at);
            t.real->computeAdjoints();
            for (int i = 0; i < pr.nin; ++i) got.push_back(xad::derivative(*X[size_t(i)]));
            W.clear();
            if (a[1] >> 16 & 1)
                abandon(t.real, int(a[1] >> 17), *X[0]);
        });
        ctx.count("nested_blocks");
        if (insideBad)
            ctx.fail("wrong-adjoint", "nested recording within a nested recording: wrong adjoint");
        if (!misuseBad.empty())
            ctx.fail("misuse-not-reported", misuseBad);
        text = fmt("%d inputs v%d v%d", pr.nin, in[0], pr.nin > 1 ? in[1] : -1);
        if (st != OK)
        {
            must("destroying variables", [&] { got.clear(); own.clear(); });
            return failed(st, "nested recording");
        }
        std::vector<VarM> fresh;
        for (int i = 0; i < pr.nin && !ctx.failed; ++i)
        {
            int h;
            if (in[size_t(i)] >= 0)
                h = vm(in[size_t(i)])->h;
            else
            {
                VarM m;
                Event e;
                recordInto(m, *X[size_t(i)], e, true);
                h = m.h;
                fresh.push_back(m);
            }
            HI& x = t.hs[size_t(h)];
            F want = d[0][size_t(i)];
            double tol = 1000 * T::eps() * (1 + norm(want)) + amp * T::eps();
            if (t.init)
            {
                want = want + x.adj;
                tol += x.err;
                x.adj = want;
                x.err = tol;
                if (!(norm(x.adj) < 1e18))
                    x.obscured = true;
            }
            if (x.obscured)
                continue;
            if (!T::same(env, got[size_t(i)], want, tol, true, &ctx) && (prof.oracle & O_ADJ))
                ctx.fail("wrong-adjoint", fmt("nested recording: adjoint %s, expected %s", T::str(got[size_t(i)]).c_str(), T::strF(want).c_str()));
        }
        must("destroying variables", [&] { got.clear(); own.clear(); });
        for (auto& m : fresh) killHandle(m);
        t.everBelow += 64;
        t.validBelow = t.everBelow;
        return true;
    }

    // ------------------------------------------------------------------ misuse
    uint64_t fingerprint()
    {
        uint64_t h = 7;
        h = hashMix(h, reinterpret_cast<uintptr_t>(TapeT::getActive()));
        for (auto& t : tapes)
        {
            if (!t.real)
                continue;
            Lib l;
            h = hashMix(h, t.real->getNumVariables());
            h = hashMix(h, t.real->getNumStatements());
            h = hashMix(h, t.real->getNumOperations());
            h = hashMix(h, t.real->getPosition());
            h = hashMix(h, t.real->getNumCallbacks());
            h = hashMix(h, t.real->haveCallbacks());
            h = hashMix(h, t.real->getNumReusableSlots());
            h = hashMix(h, t.real->getNumReusableSlotSections());
            h = hashMix(h, t.real->isActive());
            std::string s = t.real->getReusableSlotsString();
            for (char ch : s) h = hashMix(h, uint64_t(ch));
        }
        for (int i = 0, n = nvars(); i < n; ++i)
        {
            VarM& m = *vm(i);
            if (!m.on)
                continue;
            const A& x = *vp(i);
            h = hashMix(h, x.getSlot());
            double v = T::primal(x.value());
            uint64_t b;
            std::memcpy(&b, &v, 8);
            h = hashMix(h, b);
            // existing adjoints
            if (!m.moved && m.h >= 0 && m.tape == A0() && tapes[m.tape].init && readable(m))
            {
                double dd = T::primal(x.derivative());
                std::memcpy(&b, &dd, 8);
                h = hashMix(h, b);
            }
        }
        return h;
    }
    bool opMisuse(const int64_t* a)
    {
        curFault = 0;
        int kind = int(uint64_t(a[0]) % 16);
        int ti = A0();
        const char* want = nullptr;
        std::function<void()> f;
        auto* tp = ti >= 0 ? &tapes[ti] : nullptr;
        if (tp && tp->damaged)
            return false;
        unsigned bad = 0;
        if (tp)
        {
            unsigned lim = tp->validBelow, far = std::max(tp->everBelow, lim) + 70;
            switch (a[1] % 4)
            {
                case 0: bad = lim; break;
                case 1: bad = lim + unsigned(uint64_t(a[2]) % 50); break;
                case 2: bad = INV; break;
                default: bad = INV - 1 - unsigned(uint64_t(a[2]) % 1000); break;
            }
            if (kind == 7 || kind == 8)
                if (a[1] % 4 < 2)
                    bad = far + unsigned(uint64_t(a[2]) % 50);
        }
        // those cleared by clearDerivativesAfter have none
        if (tp && tp->clearedFrom != INV && tp->clearedStep + 1 == ctx.step && kind >= 4 && kind <= 6 && a[1] % 4 < 2)
            bad = tp->clearedFrom + unsigned(uint64_t(a[2]) % 4);
        TapeT* r = tp ? tp->real : nullptr;
        int i = idx(a[3]);
        VarM& m = *vm(i);
        A* x = m.on ? vp(i) : nullptr;
        if (tp && tp->init && tp->clearedFrom == INV && a[1] % 4 < 2 && kind >= 4 && kind <= 8)
        {
            // the very first slot that has no derivative
            bool known = false;
            St st = lib([&] {
                for (unsigned s = 0; s <= tp->validBelow + 128 && !known; ++s)
                {
                    try
                    {
                        (void)r->derivative(s);
                    }
                    catch (const xad::OutOfRange&)
                    {
                        bad = s;
                        known = true;
                    }
                }
            });
            if (st != OK)
                return failed(st, "accessing derivatives");
            if (!known)
            {
                ctx.fail("misuse-not-reported", fmt("no slot up to %u is out of range", tp->validBelow + 128));
                return true;
            }
            if (bad > tp->validBelow)
            {
                ctx.fail("misuse-not-reported", fmt("slot %u has a derivative, but only those below %u are in use", bad - 1, tp->validBelow));
                return true;
            }
        }
        TapeT* made = nullptr;
        switch (kind)
        {
            case 0:   // second tape
            case 1:
            {
                int tj = int(uint64_t(a[2]) % NT);
                if (!tp || tj == ti || !tapes[tj].real || tapes[tj].activeOn >= 0)
                    return false;
                TapeT* o = tapes[tj].real;
                want = "TapeAlreadyActive";
                if (kind == 0)
                    f = [=] { o->activate(); };
                else
                    f = [=] { TapeT::setActive(o); };
                break;
            }
            case 2:
                if (!tp)
                    return false;
                want = "TapeAlreadyActive";
                f = [&made] { made = new TapeT(); };
                break;
            case 3:
                if (!tp || tp->init)
                    return false;
                want = "DerivativesNotInitialized";
                f = [=] { r->computeAdjoints(); };
                break;
            case 4:
                if (!tp)
                    return false;
                want = "OutOfRange";
                f = [=] { r->derivative(bad); };
                break;
            case 5:
                if (!tp)
                    return false;
                want = "OutOfRange";
                f = [=] { r->setDerivative(bad, Real(N(1))); };
                break;
            case 6:
                if (!tp)
                    return false;
                want = "OutOfRange";
                f = [=] {
                    const Real q = Real(N(1));
                    r->setDerivative(bad, q);
                };
                break;
            case 7:
                if (!tp)
                    return false;
                want = "OutOfRange";
                f = [=] { r->incrementAdjoint(bad, Real(N(1))); };
                break;
            case 8:
                if (!tp)
                    return false;
                want = "OutOfRange";
                f = [=] { r->getAndResetOutputAdjoint(bad); };
                break;
            case 9:
            case 10:
            {
                int tj = int(uint64_t(a[2]) % NT);
                if (!tapes[tj].real || !tapes[tj].owned.empty() || (tapes[tj].activeOn >= 0 && tapes[tj].activeOn != th))
                    return false;
                TapeT* o = tapes[tj].real;
                want = "OutOfRange";
                if (kind == 9)
                    f = [=] { o->popCallback(); };
                else
                    f = [=] { o->getLastCallback(); };
                break;
            }
            case 11:
            case 12:
            case 13:
            case 14:
                if (tp || !x)
                    return false;
                want = "NoTapeException";
                if (kind == 11)
                    f = [=] { (void)xad::derivative(*x); };
                else if (kind == 12)
                    f = [=] { (void)static_cast<const A*>(x)->derivative(); };
                else if (kind == 13)
                    f = [=] { x->setDerivative(Real(N(1))); };
                else
                    f = [=] { (void)x->getAdjoint(); };
                break;
            default:
#ifndef NDEBUG
                if (!tp)
                    return false;
                if (a[1] % 8 < 4)
                {
                    want = "OutOfRange";
                    f = [=] { (void)r->getDerivative(bad); };
                }
                else
                {
                    if (tp->init || !x || m.h < 0 || m.tape != ti || tp->hs[size_t(m.h)].stale ||
                        tp->hs[size_t(m.h)].slot >= tp->clearedFrom)
                        return false;
                    want = "DerivativesNotInitialized";
                    const unsigned sl = x->getSlot();
                    f = [=] { (void)static_cast<const TapeT*>(r)->derivative(sl); };
                }
                break;
#else
                return false;
#endif
        }
        uint64_t before = fingerprint();
        St st = lib(f);
        text = fmt("kind %d, slot %u", kind, bad);
        ctx.count("misuses");
        if (!(prof.oracle & O_MISUSE))
            return true;
        if (made)
            must("destroying", [&] { delete made; });
        if (st == OK)
            ctx.fail("misuse-not-reported", fmt("misuse %d: expected %s, but no exception (slot %u)", kind, want, bad));
        else if (st != XERR || errType != want)
            ctx.fail("misuse-wrong-exception", fmt("misuse %d: expected %s, got %s", kind, want, st == OOM ? "bad_alloc" : errType.c_str()));
        else if (fingerprint() != before)
            ctx.fail("misuse-changed-state", fmt("misuse %d (%s) changed the state", kind, want));
        return true;
    }
