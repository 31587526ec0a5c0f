#include "world_run.hpp"
#include "shapes_impl.hpp"
namespace sim
{
static RegisterWorkload r("world", "af", runWorld<xad::AReal<xad::FReal<double>>>);
}
