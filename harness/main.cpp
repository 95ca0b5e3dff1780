#include "props.hpp"
int main(int argc, char **argv)
{
    std::vector<Property> v;
    register_semilocal(v);
    register_basic(v);
    register_meta(v);
    register_nuc(v);
    register_state(v);
    register_fortran(v);
    register_mem(v);
    register_thread(v);
    register_drivers(v);
    return engine_main(argc, argv, v);
}
