    // included inside World: generating steps, whole runs

    struct Want
    {
        int code;
        int64_t a0;
    };
    std::deque<Want> plan;
    int weights[OP_COUNT];
    int crowds = 0;     // how often very many variables are created

    int pickVar(bool preferReg)
    {
        std::vector<int> c, r;
        for (int i = 0, n = nvars(); i < n; ++i)
            if (usable(*vm(i)))
            {
                c.push_back(i);
                if (vm(i)->h >= 0)
                    r.push_back(i);
            }
        if (preferReg && !r.empty() && rng->chance(85))
        {
            // recently registered ones more often
            return r[size_t(rng->below(r.size()))];
        }
        if (!c.empty())
            return c[size_t(rng->below(c.size()))];
        return int(rng->below(uint64_t(nvars())));
    }
    int pickAny()
    {
        std::vector<int> c;
        for (int i = 0, n = nvars(); i < n; ++i)
            if (assignable(*vm(i)))
                c.push_back(i);
        return c.empty() ? 0 : c[size_t(rng->below(c.size()))];
    }
    int pickDestroy()
    {
        std::vector<int> c;
        for (int i = 0; i < NV; ++i)
            if (pool[i].m.on && destroyable(pool[i].m))
                c.push_back(i);
        return c.empty() ? 0 : c[size_t(rng->below(c.size()))];
    }
    int livePool()
    {
        int n = 0;
        for (auto& v : pool) n += v.m.on;
        return n;
    }
    int freeSlot()
    {
        std::vector<int> c;
        for (int i = 0; i < NV; ++i)
            if (!pool[i].m.on)
                c.push_back(i);
        return c.empty() ? 0 : c[size_t(rng->below(c.size()))];
    }

    void startGen(Rng* r)
    {
        rng = r;
        for (int i = 0; i < OP_COUNT; ++i)
        {
            // swarm testing: every run emphasises other steps
            static const int f[] = {0, 1, 1, 2, 4};
            int k = f[rng->below(5)];
            weights[i] = prof.w[i] * k;
            if (i == V_NEW || i == V_REGIN || i == V_EXPR_NEW || i == T_SEED || i == T_COMPUTE || i == T_CHECK || i == V_DESTROY)
                weights[i] = prof.w[i] * (k ? k : 1);
        }
        weights[T_ACTIVATE] = prof.w[T_ACTIVATE];
        weights[T_CREATE] = prof.w[T_CREATE];
        if (std::is_same<Real, N>::value && rng->chance(10))
            tinySeeds = sizeof(N) < 8 ? 20 * int(1 + rng->below(3)) : 60 * int(1 + rng->below(14));
        crowds = rng->chance(prof.w[C_CROWD]) ? 1 + int(rng->below(2)) : 0;
        weights[C_CROWD] = 0;
    }
    void planAdd(int code, int64_t a0 = -1) { plan.push_back(Want{code, a0}); }
    void planRecord(int n)
    {
        for (int i = 0; i < n; ++i)
        {
            int k = int(rng->below(10));
            planAdd(k < 5 ? V_EXPR_NEW : k < 7 ? V_EXPR_ASSIGN : k < 8 ? V_DESTROY : k < 9 ? V_COMPOUND : V_COPY_NEW);
            if (prof.w[V_BURST] && rng->chance(8))
                planAdd(V_BURST);
            if (prof.w[K_INSERT] && rng->chance(12))
                planAdd(K_INSERT);
        }
    }
    void macro()
    {
        int tot = prof.macroPath + prof.macroRestart + prof.macroSweep + prof.macroChurn;
        int k = int(rng->below(uint64_t(tot)));
        if ((k -= prof.macroPath) < 0)
        {
            if (rng->chance(50))
                planAdd(T_CLEARDER);
            planRecord(int(rng->below(4)));
            if (rng->chance(25))
            {
                planAdd(V_NEW);
                planAdd(V_REGIN);
            }
            planAdd(T_POS);
            int paths = 1 + int(rng->below(4));
            bool after = prof.w[T_CLEARAFTER] && rng->chance(40);
            for (int i = 0; i < paths; ++i)
            {
                int live = livePool();
                (void)live;
                planRecord(1 + int(rng->below(6)));
                planAdd(T_SEED, -2);
                if (rng->chance(30))
                    planAdd(T_SEED, -2);
                if (rng->chance(90))
                    planAdd(T_COMPUTE_TO, 1);
                if (rng->chance(60))
                    planAdd(T_CHECK);
                int nd = int(rng->below(4));
                if (rng->chance(50))
                    for (int j = 0; j < nd; ++j) planAdd(V_DESTROY, -3);
                planAdd(after ? T_CLEARAFTER : T_RESET_TO, 1);
                for (int j = 0; j < nd; ++j) planAdd(V_DESTROY, -3);
            }
            planAdd(rng->chance(70) ? T_COMPUTE : T_COMPUTE_TO, int64_t(rng->below(1000)));
            planAdd(T_CHECK);
        }
        else if ((k -= prof.macroRestart) < 0)
        {
            planAdd(T_NEWREC);
            planRecord(1 + int(rng->below(8)));
            planAdd(T_SEED, -2);
            planAdd(T_COMPUTE);
            planAdd(T_CHECK);
        }
        else if ((k -= prof.macroSweep) < 0)
        {
            planRecord(int(rng->below(6)));
            if (rng->chance(80))
                planAdd(T_CLEARDER);
            int n = 1 + int(rng->below(3));
            for (int i = 0; i < n; ++i) planAdd(T_SEED, -2);
            planAdd(T_COMPUTE);
            planAdd(T_CHECK);
        }
        else
        {
            int n = 4 + int(rng->below(16));
            for (int i = 0; i < n; ++i)
                planAdd(rng->chance(50) ? V_DESTROY : rng->chance(50) ? V_EXPR_NEW : V_COPY_NEW);
        }
    }

    Op gen()
    {
        Op op;
        if (prof.threads > 1)
        {
            // stay on a thread for a while
            th = rng->chance(75) ? th : int(rng->below(uint64_t(prof.threads)));
            op.thread = th;
        }
        int code = -1;
        int64_t a0 = -1;
        int t0 = A0();
        bool damaged = t0 >= 0 && tapes[t0].damaged;
        bool blocked = t0 >= 0 && tapes[t0].init && tapes[t0].deadNonzero;
        if (t0 < 0 && rng->chance(prof.w[M_MISUSE] ? 40 : 70))
            code = rng->chance(60) ? T_ACTIVATE : T_CREATE;
        else if (damaged && rng->chance(70))
            code = rng->chance(60) ? T_NEWREC : prof.w[T_CANON] && rng->chance(50) ? T_CANON : T_CLEARALL;
        else if (!plan.empty())
        {
            code = plan.front().code;
            a0 = plan.front().a0;
            plan.pop_front();
        }
        else if (blocked && rng->chance(30))
            code = rng->chance(60) ? T_CLEARDER : T_NEWREC;
        else if (crowds > 0 && ctx.step > 4 && rng->chance(5))
        {
            --crowds;
            code = C_CROWD;
            planRecord(int(rng->below(3)));
            if (rng->chance(80))
                planAdd(C_SUM);
            if (rng->chance(50))
                planAdd(T_CLEARDER);
            if (prof.w[T_POS] && rng->chance(30))
                planAdd(T_POS);
            planAdd(T_SEED, -2);
            planAdd(T_COMPUTE);
            planAdd(T_CHECK);
        }
        else if (prof.macroPath + prof.macroRestart + prof.macroSweep + prof.macroChurn > 0 && rng->chance(8))
        {
            macro();
            code = plan.front().code;
            a0 = plan.front().a0;
            plan.pop_front();
        }
        if (code < 0)
        {
            long tot = 0;
            for (int i = 0; i < OP_COUNT; ++i) tot += weights[i];
            long k = long(rng->below(uint64_t(tot)));
            for (code = 0; code < OP_COUNT - 1; ++code)
                if ((k -= weights[code]) < 0)
                    break;
        }
        // keep the pool from being always full or always empty
        if (code == V_DESTROY && livePool() < 4 && rng->chance(70))
            code = V_EXPR_NEW;
        if ((code == V_EXPR_NEW || code == V_COPY_NEW || code == V_NEW) && livePool() >= NV)
            code = V_DESTROY;
        if (code == V_EXPR_NEW && livePool() < 3)
            code = rng->chance(60) ? V_NEW : V_REGIN;
        op.code = code;
        for (auto& x : op.a) x = int64_t(rng->next() >> 33);
        switch (code)
        {
            case V_NEW: op.a[0] = freeSlot(); break;
            case V_REGIN:
            case V_REGOUT: op.a[0] = pickVar(rng->chance(15)); break;
            case V_EXPR_NEW:
                op.a[0] = freeSlot();
                op.a[1] = int64_t(rng->chance(50) ? manyOperands(rng->next()) : rng->below(SIM_NUM_SHAPES));
                op.a[2] = pickVar(true);
                op.a[3] = pickVar(true);
                op.a[4] = pickVar(true);
                break;
            case V_EXPR_ASSIGN:
                op.a[0] = pickAny();
                op.a[1] = int64_t(rng->chance(50) ? manyOperands(rng->next()) : rng->below(SIM_NUM_SHAPES));
                op.a[2] = pickVar(true);
                op.a[3] = pickVar(true);
                op.a[4] = pickVar(true);
                break;
            case V_COMPLEX:
                op.a[0] = pickAny();
                op.a[2] = pickVar(true);
                op.a[3] = pickVar(true);
                op.a[4] = pickVar(true);
                break;
            case V_COMPOUND:
                op.a[0] = pickVar(true);
                op.a[2] = rng->chance(20) ? op.a[0] : pickVar(true);
                break;
            case V_COPY_NEW:
            case V_MOVE_NEW:
                op.a[0] = freeSlot();
                op.a[1] = pickVar(true);
                break;
            case V_COPY_ASSIGN:
            case V_MOVE_ASSIGN:
                op.a[0] = pickAny();
                op.a[1] = rng->chance(5) ? op.a[0] : pickVar(true);
                break;
            case V_SWAP:
                op.a[0] = pickVar(true);
                op.a[1] = pickVar(true);
                break;
            case V_SET: op.a[0] = pickAny(); break;
            case V_EDIT: op.a[0] = pickVar(true); break;
            case V_DESTROY: op.a[0] = pickDestroy(); break;
            case V_BURST:
                op.a[0] = pickVar(true);
                op.a[1] = pickVar(true);
                break;
            case C_PUSH:
            case C_CROWD:
            case C_SUM:
            case C_INSERT: op.a[0] = pickVar(true); break;
            case V_HAND:
                op.a[0] = pickVar(true);
                op.a[1] = pickVar(true);
                op.a[2] = pickVar(true);
                break;
            case T_SEED:
                op.a[0] = a0 == -2 ? recentVar() : pickVar(true);
                if (a0 == -2)
                    op.a[1] = 1;
                op.a[5] = tinySeeds;
                break;
            case T_COMPUTE_TO:
            case T_RESET_TO:
            case T_CLEARAFTER:
                if (a0 >= 0)
                    op.a[0] = a0;
                break;
        }
        if (code == T_CLEARAFTER && prof.w[M_MISUSE] && plan.empty() && rng->chance(50))
            planAdd(M_MISUSE);
        if (code == V_DESTROY && a0 == -3)
        {
            int r = recentVar();
            if (r < NV)
                op.a[0] = r;
        }
        if (prof.allocFaults && rng->chance(damaged ? prof.allocFaults / 3 : prof.allocFaults))
        {
            op.fault = 1 + int(rng->chance(70) ? rng->below(3) : rng->below(40));
            op.burst = rng->chance(70) ? 1 : rng->chance(50) ? 2 + int(rng->below(4)) : 100000;
        }
        return op;
    }
    // a variable registered recently
    int recentVar()
    {
        int best = -1, bestReg = -1;
        for (int i = 0, n = nvars(); i < n; ++i)
        {
            VarM& m = *vm(i);
            if (!usable(m) || m.h < 0)
                continue;
            int r = tapes[m.tape].hs[size_t(m.h)].regEv;
            if (r > bestReg || (r == bestReg && rng->chance(50)) || rng->chance(10))
            {
                best = i;
                bestReg = r;
            }
        }
        return best < 0 ? pickVar(true) : best;
    }

    // ------------------------------------------------------------------ start and end of a run
    void adopt(TapeT* t)
    {
        sub = true;
        MT& m = tapes[0];
        m = MT();
        m.real = t;
        m.external = true;
        m.base = long(t->getNumVariables());
        m.activeOn = 0;
        act[0] = 0;
    }
    void onThread(int t, const std::function<void()>& f)
    {
        th = t;
        if (prof.threads > 1)
            runOnThread(t, f);
        else
            f();
    }
    void endChecks()
    {
        // what's on the active tapes is still usable
        for (int t = 0; t < prof.threads && !ctx.failed; ++t)
        {
            onThread(t, [&] {
                if (A0() < 0 || tapes[A0()].damaged || ctx.failed)
                    return;
                Op op;
                op.code = T_CLEARDER;
                execOp(op);
                int best = -1;
                for (int i = 0, n = nvars(); i < n; ++i)
                    if (usable(*vm(i)) && vm(i)->h >= 0)
                        best = i;
                if (best < 0)
                    return;
                op.code = T_SEED;
                op.a[0] = best;
                op.a[1] = 1;
                op.a[2] = 77;
                execOp(op);
                op = Op();
                op.code = T_COMPUTE;
                execOp(op);
                op = Op();
                op.code = T_CHECK;
                execOp(op);
                invariants();
            });
        }
    }
    void finish()
    {
        curFault = 0;
        plan.clear();
        if (!ctx.failed)
            endChecks();
        for (int t = 0; t < prof.threads; ++t)
            onThread(t, [&] {
                if (A0() >= 0)
                    for (int i = 0; i < NV; ++i)
                    {
                        if (!pool[i].m.on || pool[i].m.h < 0 || pool[i].m.tape != A0())
                            continue;
                        destroyVar((i * 7 + 3) % NV == i ? i : i);
                        if (!sub)
                            invariants();
                    }
                if (A0() >= 0 && canDestroyVarsOf(A0()))
                    destroyVarsOf(A0());
                if (!sub)
                    invariants();
            });
        if (sub)
        {
            // leave the tape as found
            TapeT* t = tapes[0].real;
            if (!ctx.failed && (prof.oracle & O_COUNT) && long(t->getNumVariables()) - tapes[0].base != tapes[0].live)
                ctx.fail("wrong-variable-count", "after destroying all variables");
            for (int i = 0; i < NV; ++i)
                if (pool[i].m.on)
                    destroyVar(i);
            {
                Lib l;
                delete cv;
                cv = nullptr;
            }
            while (!tapes[0].owned.empty())
            {
                Cb* cb = tapes[0].owned.back();
                Lib l;
                t->popCallback();
                tapes[0].owned.pop_back();
                looseCbs.push_back(cb);
            }
            {
                Lib l;
                t->newRecording();
            }
            for (auto* cb : looseCbs) delete cb;
            looseCbs.clear();
            return;
        }
        // no active tape anymore
        for (int t = 0; t < prof.threads; ++t)
            onThread(t, [&] {
                must("deactivateAll", [&] { TapeT::deactivateAll(); });
                if (A0() >= 0)
                    tapes[A0()].activeOn = -1;
                act[th] = -1;
                if (other && otherActive[th])
                {
                    Lib l;
                    other->deactivate();
                    otherActive[th] = false;
                }
            });
        th = 0;
        for (int i = 0; i < NV; ++i)
            if (pool[i].m.on)
                destroyVar(i);
        {
            Lib l;
            delete cv;
            cv = nullptr;
        }
        cm.clear();
        for (auto* h : husks) must("destroying a moved-from tape", [&] { delete h; });
        husks.clear();
        for (auto& t : tapes)
        {
            if (!t.real)
                continue;
            std::vector<int> serials;
            for (Cb* cb : t.owned) serials.push_back(cb->serial);
            long total = cbDestroyedTotal;
            TapeT* p = t.real;
            must("destroying a tape", [&] { delete p; });
            checkDestroyed(serials, total);
            t = MT();
        }
        if (other)
        {
            Lib l;
            delete other;
            other = nullptr;
        }
        for (auto* cb : looseCbs)
        {
            if (cbDestroyed[size_t(cb->serial)])
                continue;
            delete cb;
        }
        looseCbs.clear();
    }
