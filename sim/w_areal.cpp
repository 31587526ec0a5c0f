#include "world_run.hpp"
#include "shapes_impl.hpp"
namespace sim
{
static RegisterWorkload r("world", "areal", runWorld<xad::AReal<double>>);
}
