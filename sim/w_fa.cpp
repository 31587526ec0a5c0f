#include "world_run.hpp"
#include "shapes_impl.hpp"
namespace sim
{
static RegisterWorkload r("world", "fa", runWorld<xad::FReal<xad::AReal<double>>>);
}
