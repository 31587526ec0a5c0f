// What user code (callbacks, functions given to drivers) throws: exceptions of different types, with
// an identity, such that one that got lost, replaced, copied into a base class or swallowed by a
// handler for another kind is noticed.
#pragma once
#include <new>
#include <stdexcept>
#include <XAD/Exceptions.hpp>

namespace sim
{
struct ThrownPlain
{
    int id;
};
template <class B>
struct ThrownFrom : B
{
    int id;
    template <class... Args>
    explicit ThrownFrom(int i, Args... args) : B(args...), id(i)
    {
    }
};
constexpr int THROW_KINDS = 9;

[[noreturn]] inline void throwKind(int kind, int id)
{
    switch (kind)
    {
    case 1: throw ThrownFrom<xad::OutOfRange>(id, "out of range in user code");
    case 2: throw ThrownFrom<std::runtime_error>(id, "runtime error in user code");
    case 3: throw ThrownFrom<std::bad_alloc>(id);
    case 4: throw int(id);
    case 5: throw ThrownFrom<xad::DerivativesNotInitialized>(id);
    case 6: throw ThrownFrom<xad::NoTapeException>(id);
    case 7: throw ThrownFrom<xad::TapeAlreadyActive>(id);
    case 8: throw ThrownFrom<std::logic_error>(id, "logic error in user code");
    default: throw ThrownPlain{id};
    }
}

// in a handler: whether the current exception is one of the above
inline bool caughtThrown(int& kind, int& id)
{
    try
    {
        throw;
    }
    catch (const ThrownPlain& e) { kind = 0, id = e.id; }
    catch (const ThrownFrom<xad::OutOfRange>& e) { kind = 1, id = e.id; }
    catch (const ThrownFrom<std::runtime_error>& e) { kind = 2, id = e.id; }
    catch (const ThrownFrom<std::bad_alloc>& e) { kind = 3, id = e.id; }
    catch (int e) { kind = 4, id = e; }
    catch (const ThrownFrom<xad::DerivativesNotInitialized>& e) { kind = 5, id = e.id; }
    catch (const ThrownFrom<xad::NoTapeException>& e) { kind = 6, id = e.id; }
    catch (const ThrownFrom<xad::TapeAlreadyActive>& e) { kind = 7, id = e.id; }
    catch (const ThrownFrom<std::logic_error>& e) { kind = 8, id = e.id; }
    catch (...) { return false; }
    return true;
}
}  // namespace sim
