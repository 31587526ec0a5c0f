// Which steps a run of each property consists of.
#include "profiles.hpp"

namespace sim
{
const char* opName(int code)
{
    static const char* n[] = {
#define X(n) #n,
        SIM_OPS(X)
#undef X
    };
    return code >= 0 && code < OP_COUNT ? n[code] : "NONE";
}

Profile::Profile()
{
    for (int& x : w) x = 0;
}

namespace
{
void set(Profile& p, std::initializer_list<std::pair<int, int>> l)
{
    for (auto& x : l) p.w[x.first] = x.second;
}
// recording and differentiating, with all ways of handling variables
Profile base(const char* name)
{
    Profile p;
    p.name = name;
    set(p, {{V_NEW, 4}, {V_REGIN, 6}, {V_REGOUT, 2}, {V_EXPR_NEW, 24}, {V_EXPR_ASSIGN, 10}, {V_COMPOUND, 6},
            {V_COPY_NEW, 3}, {V_COPY_ASSIGN, 3}, {V_MOVE_NEW, 2}, {V_MOVE_ASSIGN, 3}, {V_SWAP, 2}, {V_SET, 2},
            {V_EDIT, 1}, {V_DESTROY, 9}, {V_BURST, 1}, {V_COMPLEX, 2}, {V_HAND, 1}, {T_SEED, 6}, {T_CHECK, 3}, {T_COMPUTE, 4},
            {T_CLEARDER, 3}, {T_NEWREC, 2}, {T_ACTIVATE, 6}, {T_CREATE, 1}});
    p.macroSweep = 2;
    return p;
}
void containers(Profile& p)
{
    set(p, {{C_PUSH, 4}, {C_POP, 2}, {C_INSERT, 2}, {C_ERASE, 2}, {C_RESIZE, 2}, {C_CLEAR, 1}, {C_PERMUTE, 2}, {C_REGISTER, 1}, {C_SUM, 1}, {C_CROWD, 5}});
}
void positions(Profile& p)
{
    set(p, {{T_POS, 4}, {T_COMPUTE_TO, 4}, {T_RESET_TO, 3}, {T_CLEARAFTER, 2}});
    p.macroPath = 3;
}
void callbacks(Profile& p)
{
    set(p, {{K_INSERT, 8}, {K_PUSH, 2}, {K_POP, 1}, {K_FREE, 1}});
}
void tapes(Profile& p)
{
    set(p, {{T_CREATE, 3}, {T_ACTIVATE, 6}, {T_DEACT, 3}, {T_DEACTALL, 1}, {T_DESTROY, 2}, {T_OTHER, 2}});
}

std::vector<Profile> make()
{
    std::vector<Profile> v;
    {
        Profile p = base("c02");
        containers(p);
        p.macroSweep = 4;
        p.macroChurn = 2;
        p.w[V_BURST] = 2;
        p.maxSteps = 220;
        v.push_back(p);
    }
    {
        Profile p = base("c03");
        containers(p);
        set(p, {{V_DESTROY, 20}, {V_COPY_NEW, 8}, {V_NEW, 8}, {V_REGIN, 10}, {T_CLEARALL, 1}, {N_BLOCK, 1}, {T_RESET_TO, 1}, {T_POS, 1}, {V_BURST, 0}, {V_COMPLEX, 0}});
        p.macroChurn = 6;
        p.macroSweep = 1;
        p.allocFaults = 4;
        p.maxSteps = 240;
        v.push_back(p);
    }
    {
        Profile p = base("c04");
        positions(p);
        set(p, {{K_INSERT, 2}, {V_BURST, 3}});
        p.macroPath = 8;
        p.maxSteps = 260;
        v.push_back(p);
    }
    {
        Profile p = base("c05");
        positions(p);
        callbacks(p);
        set(p, {{T_CANON, 4}, {T_CLEARALL, 3}, {T_NEWREC, 6}, {N_BLOCK, 1}, {T_CLEARDER, 6}, {M_MISUSE, 4}});
        p.macroRestart = 4;
        p.macroPath = 1;
        p.allocFaults = 4;
        p.cbThrows = true;
        v.push_back(p);
    }
    {
        Profile p = base("c06");
        callbacks(p);
        set(p, {{K_INSERT, 14}, {T_POS, 2}, {T_COMPUTE_TO, 3}, {T_RESET_TO, 1}, {N_BLOCK, 3}, {V_DESTROY, 12}});
        p.macroSweep = 4;
        p.macroPath = 2;
        v.push_back(p);
    }
    {
        Profile p = base("c07");
        positions(p);
        callbacks(p);
        tapes(p);
        set(p, {{M_MISUSE, 40}, {T_CLEARALL, 1}, {N_BLOCK, 2}});
        v.push_back(p);
    }
    {
        Profile p = base("c08");
        callbacks(p);
        set(p, {{K_INSERT, 14}, {T_COMPUTE, 8}, {T_POS, 2}, {T_COMPUTE_TO, 3}, {T_NEWREC, 3}, {T_CLEARALL, 2}, {N_BLOCK, 3}});
        p.macroSweep = 5;
        p.cbThrows = true;
        v.push_back(p);
    }
    {
        Profile p = base("c09");
        containers(p);
        positions(p);
        callbacks(p);
        tapes(p);
        set(p, {{T_MOVE, 1}, {T_MOVE_ASSIGN, 1}, {T_HUSK, 1}, {T_CLEARALL, 2}, {N_BLOCK, 1}, {V_BURST, 3}, {S_STREAM, 0}});
        p.allocFaults = 20;
        v.push_back(p);
    }
    {
        Profile p = base("c10");
        tapes(p);
        positions(p);
        callbacks(p);
        set(p, {{T_CREATE, 4}, {T_ACTIVATE, 14}, {T_DEACT, 8}, {T_DEACTALL, 2}, {T_DESTROY, 3}, {T_MOVE, 1}, {T_MOVE_ASSIGN, 1}, {T_HUSK, 1}, {T_OTHER, 4}, {M_MISUSE, 3}, {N_BLOCK, 2}});
        p.threads = 3;
        p.maxSteps = 220;
        v.push_back(p);
    }
    {
        Profile p = base("c11");
        positions(p);
        callbacks(p);
        tapes(p);
        set(p, {{T_MOVE, 8}, {T_MOVE_ASSIGN, 6}, {T_HUSK, 4}, {T_CLEARALL, 1}, {N_BLOCK, 4}});
        p.allocFaults = 4;
        v.push_back(p);
    }
    {
        Profile p = base("c12");
        positions(p);
        callbacks(p);
        tapes(p);
        set(p, {{K_INSERT, 8}, {K_PUSH, 8}, {K_POP, 5}, {K_FREE, 3}, {T_MOVE, 2}, {T_MOVE_ASSIGN, 3}, {T_HUSK, 2}, {T_DESTROY, 4}, {T_CREATE, 5}, {T_CLEARALL, 1}});
        p.allocFaults = 8;
        p.cbThrows = true;
        v.push_back(p);
    }
    {
        Profile p = base("c15");
        containers(p);
        positions(p);
        callbacks(p);
        set(p, {{T_CLEARALL, 1}, {N_BLOCK, 1}, {T_CLEARAFTER, 0}});
        p.macroSweep = 5;
        p.macroRestart = 1;
        p.macroPath = 2;
        p.minSteps = 30;
        p.maxSteps = 110;
        v.push_back(p);
    }
    {
        // faults with element types that are active themselves
        Profile p = base("c15f");
        containers(p);
        positions(p);
        callbacks(p);
        set(p, {{T_CLEARALL, 2}, {T_CLEARAFTER, 0}});
        p.macroSweep = 4;
        p.allocFaults = 10;
        p.cbThrows = true;
        p.minSteps = 30;
        p.maxSteps = 110;
        v.push_back(p);
    }
    {
        Profile p = base("c17");
        containers(p);
        positions(p);
        callbacks(p);
        tapes(p);
        set(p, {{T_CLEARAFTER, 0}, {V_BURST, 2}, {N_BLOCK, 1}, {T_MOVE, 1}, {T_CLEARALL, 1}});
        p.portable = true;
        p.maxSteps = 220;
        v.push_back(p);
    }
    {
        // one thread of a multi-threaded run
        Profile p = base("c01");
        tapes(p);
        positions(p);
        callbacks(p);
        containers(p);
        set(p, {{T_CREATE, 4}, {T_DESTROY, 4}, {T_DEACT, 4}, {T_MOVE, 1}, {M_MISUSE, 10}, {T_OTHER, 0}});
        p.minSteps = 12;
        p.maxSteps = 40;
        v.push_back(p);
        p.name = "c01f";
        p.allocFaults = 8;
        p.cbThrows = true;
        v.push_back(p);
    }
    {
        Profile p = base("sub");
        set(p, {{T_POS, 2}, {T_COMPUTE_TO, 2}, {T_RESET_TO, 1}, {K_INSERT, 2}, {T_NEWREC, 0}, {T_CREATE, 0}, {T_ACTIVATE, 0}, {V_BURST, 1}});
        p.oracle &= ~O_LEAK;
        v.push_back(p);
    }
    return v;
}
const std::vector<Profile>& all()
{
    static const std::vector<Profile> v = make();
    return v;
}
}  // namespace

const Profile* findProfile(const std::string& name)
{
    for (auto& p : all())
        if (p.name == name)
            return &p;
    return nullptr;
}
const Profile& subProfile() { return *findProfile("sub"); }
}  // namespace sim
