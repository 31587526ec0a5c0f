// The steps a run consists of, and the profiles (which steps, how often, which checks) per property.
#pragma once
#include "core.hpp"
#include <string>

namespace sim
{
#define SIM_OPS(X)                                                                                 \
    X(V_NEW) X(V_REGIN) X(V_REGOUT) X(V_EXPR_NEW) X(V_EXPR_ASSIGN) X(V_COMPOUND) X(V_COPY_NEW)     \
    X(V_COPY_ASSIGN) X(V_MOVE_NEW) X(V_MOVE_ASSIGN) X(V_SWAP) X(V_SET) X(V_EDIT) X(V_DESTROY)      \
    X(V_BURST) X(V_COMPLEX) X(C_PUSH) X(C_POP) X(C_INSERT) X(C_ERASE) X(C_RESIZE) X(C_CLEAR) X(C_PERMUTE)       \
    X(C_REGISTER) X(T_SEED) X(T_CHECK) X(T_COMPUTE) X(T_COMPUTE_TO) X(T_RESET_TO) X(T_CLEARDER)    \
    X(T_CLEARAFTER) X(T_NEWREC) X(T_CLEARALL) X(T_POS) X(T_CREATE) X(T_ACTIVATE) X(T_DEACT)        \
    X(T_DEACTALL) X(T_DESTROY) X(T_MOVE) X(T_MOVE_ASSIGN) X(T_HUSK) X(T_OTHER) X(T_CANON)          \
    X(K_INSERT) X(K_PUSH) X(K_POP) X(K_FREE) X(N_BLOCK) X(M_MISUSE) X(S_STREAM) X(C_CROWD) X(C_SUM) X(V_HAND)

enum OpCode
{
#define X(n) n,
    SIM_OPS(X)
#undef X
        OP_COUNT
};
const char* opName(int code);

enum Oracle
{
    O_VALUE = 1,
    O_ADJ = 2,
    O_COUNT = 4,
    O_SLOT = 8,
    O_ACTIVE = 16,
    O_LIFE = 32,      // callback lifetime
    O_LEAK = 64,      // memory
    O_CB = 128,       // callback order
    O_CANON = 256,
    O_MISUSE = 512,
    O_ALL = 1023
};

struct Profile
{
    std::string name;
    int w[OP_COUNT];
    int macroPath = 0, macroRestart = 0, macroSweep = 0, macroChurn = 0;  // scripted sequences
    int minSteps = 40, maxSteps = 160;
    int oracle = O_ALL;
    int allocFaults = 0;     // percent of steps with a failing allocation
    bool cbThrows = false;
    int threads = 1;
    bool portable = false;   // only steps whose effect doesn't depend on slots
    Profile();
};
const Profile* findProfile(const std::string& name);

}  // namespace sim
