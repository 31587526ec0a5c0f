#include "world_run.hpp"
#include "shapes_impl.hpp"
namespace sim
{
static RegisterWorkload r("world", "aa", runWorld<xad::AReal<xad::AReal<double>>>);
}
