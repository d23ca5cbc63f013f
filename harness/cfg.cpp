// One configuration of the lockstep engine, chosen by -DVP_CFG=<n>.
#include "world_main.hpp"
using namespace vp;
#include "cfg_type.hpp"
int main(int argc, char** argv) { return world_main<T>(argc, argv, name); }
