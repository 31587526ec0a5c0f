// The known findings (known_findings.txt), reproduced by the shortest history that shows each.
// A run "fails" if the finding is still there.
#include "core.hpp"
#include <XAD/XAD.hpp>
#include <memory>

namespace sim
{
namespace
{
typedef xad::AReal<double> AD;
typedef xad::Tape<double> Tape;

// clearDerivativesAfter clears a derivative of a variable that was recorded before the position
void f8(Ctx& ctx)
{
    Tape t;
    AD x = 2.0;
    t.registerInput(x);
    t.newRecording();
    AD a = x * 2.0;
    AD b = x * 3.0;
    a = x * 5.0;
    Tape::position_type pos = t.getPosition();
    t.registerOutput(b);
    xad::derivative(b) = 1.0;
    t.clearDerivativesAfter(pos);
    bool lost = false;
    try
    {
        lost = xad::derivative(b) != 1.0;
    }
    catch (xad::OutOfRange&)
    {
        lost = true;
    }
    if (lost)
        ctx.fail("finding-F8", "derivative of a variable recorded before the position is gone");
}
// a variable destroyed while another tape of the thread is active is taken off that tape
void f9(Ctx& ctx)
{
    Tape a, b(false);
    std::unique_ptr<AD> x(new AD(1.0)), y(new AD(1.0));
    a.registerInput(*x);
    a.registerInput(*y);
    a.deactivate();
    b.activate();
    AD u = 1.0, w = 1.0;
    b.registerInput(u);
    b.registerInput(w);
    x.reset();
    if (b.getNumVariables() != 2 || a.getNumVariables() != 1)
        ctx.fail("finding-F9", "variable of one tape was released on the other");
    b.deactivate();
    a.activate();
    y.reset();
}
// a variable that survived clearAll and is destroyed later takes a new variable off the tape
void f20(Ctx& ctx)
{
    Tape t;
    std::unique_ptr<AD> x(new AD(1.0)), y(new AD(1.0));
    t.registerInput(*x);
    t.registerInput(*y);
    t.clearAll();
    AD u = 1.0, w = 1.0;
    t.registerInput(u);
    t.registerInput(w);
    x.reset();
    if (t.getNumVariables() != 2)
        ctx.fail("finding-F20", "variable from before clearAll took a new one off the tape");
}
// an outer variable destroyed inside a nested recording stays accounted for
void f21(Ctx& ctx)
{
    Tape t;
    AD x = 2.0;
    t.registerInput(x);
    t.newRecording();
    std::unique_ptr<AD> y(new AD(x * 2.0));
    {
        xad::ScopedNestedRecording<Tape> n(&t);
        y.reset();
    }
    if (t.getNumVariables() != 1)
        ctx.fail("finding-F21", "destroyed variable still counted");
}

RunResult runProbe(const RunRequest& rq)
{
    RunResult res;
    Ctx ctx;
    switch (rq.seed)
    {
        case 8: f8(ctx); break;
        case 9: f9(ctx); break;
        case 20: f20(ctx); break;
        case 21: f21(ctx); break;
        default: break;
    }
    res.failed = ctx.failed;
    res.cls = ctx.cls;
    res.msg = ctx.msg;
    res.failStep = 0;
    return res;
}
RegisterWorkload r("probe", "double", runProbe);
}  // namespace
}  // namespace sim
