#include "world_run.hpp"
#include "shapes_impl.hpp"
namespace sim
{
static RegisterWorkload r("world", "freal", runWorld<xad::FReal<double>>);
}
