// definitions of World that need whole runs, and the workload
#pragma once
#include "world.hpp"

namespace sim
{
const Profile& subProfile();

template <class Real>
bool World<Real>::opCanon(const int64_t* a)
{
    int ti = A0();
    if (ti < 0 || sub || tapes[ti].activeOn != th)
        return false;
    MT& t = tapes[ti];
    bool all = a[0] % 2 == 0;
    curFault = 0;
    if (!all && t.oom && T::hasInnerTape)
        all = true;
    if (all && !canDestroyVarsOf(ti))
        return false;
    int64_t args[6] = {1, 0, 0, 0, 0, 0};
    if (!(all ? opClearAll(args) : opNewRec(args)) || ctx.failed)
        return true;
    ctx.count(all ? "compared_after_clearAll" : "compared_after_newRecording");
    uint64_t h[2];
    const int n = 15 + int(uint64_t(a[2]) % 50);
    long base = long(t.real->getNumVariables());
    for (int k = 0; k < 2 && !ctx.failed; ++k)
    {
        TapeT* fresh = nullptr;
        if (k == 1)
            must("tapes", [&] {
                t.real->deactivate();
                fresh = new TapeT();
            });
        TapeT* use = k == 0 ? t.real : fresh;
        Ctx c2;
        c2.fill = ctx.fill;
        Rng r{uint64_t(a[1])};
        {
            World w(c2, subProfile(), env);
            w.adopt(use);
            w.startGen(&r);
            for (int i = 0; i < n * 3 && w.ctx.step < n && !c2.failed; ++i)
            {
                Op op = w.gen();
                if (!w.exec(op))
                    continue;
                ++c2.step;
                c2.observe(uint64_t(use->getNumStatements()));
                c2.observe(uint64_t(use->getNumOperations()));
                c2.observe(uint64_t(use->getNumVariables() - w.tapes[0].base));
                if (all && base == 0)
                    for (auto& v : w.pool)
                        if (v.m.on && v.m.h >= 0)
                            c2.observe(uint64_t(v.p->getSlot()));
            }
            w.finish();
            if (k == 0)
                t.everBelow = std::max(t.everBelow, w.tapes[0].everBelow);
        }
        h[k] = c2.obs;
        ctx.observe(c2.obs);
        for (auto& s : c2.stats) ctx.stats[s.first] += s.second;
        if (k == 1)
            must("tapes", [&] {
                delete fresh;
                t.real->activate();
            });
        if (c2.failed && (prof.oracle & (O_CANON | O_ADJ)))
            ctx.fail((k ? "new-tape:" : "restarted-tape:") + c2.cls, c2.msg);
    }
    if (!ctx.failed && h[0] != h[1] && (prof.oracle & O_CANON))
        ctx.fail("restarted-tape-differs", fmt("%s: results differ from those of a new tape", all ? "clearAll" : "newRecording"));
    if (!ctx.failed && long(t.real->getNumVariables()) != base && (prof.oracle & O_COUNT))
        ctx.fail("wrong-variable-count", "after running a recording on a restarted tape");
    if (!ctx.failed)
        opNewRec(args);
    return true;
}

template <class Real>
RunResult runWorld(const RunRequest& rq)
{
    const Profile* prof = findProfile(rq.profile);
    RunResult res;
    Ctx ctx;
    Rng rng(rq.seed);
    static const unsigned char fills[] = {0xCD, 0x00, 0xFF, 0x7F, 0x3F, 0xA5};
    ctx.fill = fills[rng.below(6)];
    if (rq.fill >= 0)
        ctx.fill = (unsigned char)rq.fill;
    Ctx* savedCtx = tlsCtx;
    tlsCtx = &ctx;
    {
        typename World<Real>::Env env(true);
        World<Real> w(ctx, *prof, env);
        w.invoked.reserve(8192);
        if (prof->threads > 1)
            for (int t = 0; t < prof->threads; ++t) runOnThread(t, [&] { tlsCtx = &ctx; });
        auto note = [&](const Op& op) {
            ctx.log = hashMix(ctx.log, uint64_t(op.code));
            for (char ch : w.text) ctx.log = hashMix(ctx.log, uint64_t((unsigned char)ch));
            for (auto x : op.a) ctx.log = hashMix(ctx.log, uint64_t(x));
            ctx.log = hashMix(ctx.log, ctx.obs);
            ctx.stats[std::string("op_") + opName(op.code)]++;
            if (op.fault)
                ctx.count("fault_alloc_armed");
            if (rq.keepText)
                res.opText.push_back(fmt("[t%d] %s %s", op.thread, opName(op.code), w.text.c_str()) +
                                     (op.fault ? fmt(" (allocation %d fails, %d times)", op.fault, op.burst) : ""));
        };
        if (!rq.replay)
        {
            int n = prof->minSteps + int(rng.below(uint64_t(prof->maxSteps - prof->minSteps + 1)));
            Op first;
            first.code = T_CREATE;
            ++ctx.step;
            progress(0, first);
            w.exec(first);
            res.ops.push_back(first);
            note(first);
            w.startGen(&rng);
            for (int i = 0; i < n * 4 && ctx.step < n && !ctx.failed; ++i)
            {
                Op op = w.gen();
                ++ctx.step;
                progress(res.ops.size(), op);
                if (!w.exec(op))
                {
                    --ctx.step;
                    continue;
                }
                res.ops.push_back(op);
                note(op);
            }
        }
        else
        {
            for (auto& op : rq.ops)
            {
                if (ctx.failed)
                    break;
                ++ctx.step;
                if (w.exec(op))
                {
                    res.ops.push_back(op);
                    note(op);
                }
                else
                    --ctx.step;
            }
        }
        ctx.stats["steps"] += ctx.step;
        progress(res.ops.size(), Op());
        w.finish();
        if (w.cv)
        {
            Lib l;
            delete w.cv;
        }
        if (!ctx.failed && (prof->oracle & O_COUNT) && !env.consistent() && !prof->allocFaults)
            ctx.fail("inner-variable-count", "inner tape still has variables registered after all have been destroyed");
        {
            Lib l;
            w.errType = std::string();
        }
    }
    if (!ctx.failed && ctx.live != 0 && (prof->oracle & O_LEAK))
        ctx.fail("leak", fmt("%ld allocations (%ld bytes) of the library never released", ctx.live, ctx.liveBytes));
    tlsCtx = savedCtx;
    dropTracking(&ctx);
    res.failed = ctx.failed;
    res.cls = ctx.cls;
    res.msg = ctx.msg;
    res.failStep = ctx.failStep;
    res.obs = ctx.obs;
    res.log = ctx.log;
    ctx.stats["allocations"] += ctx.allocs;
    res.stats = ctx.stats;
    res.states = ctx.states;
    return res;
}
}  // namespace sim
