#pragma once
#include "gen.hpp"
void register_semilocal(std::vector<Property> &v);
void register_basic(std::vector<Property> &v);
void register_meta(std::vector<Property> &v);
void register_nuc(std::vector<Property> &v);
void register_state(std::vector<Property> &v);
void register_fortran(std::vector<Property> &v);
void register_mem(std::vector<Property> &v);
void register_thread(std::vector<Property> &v);
void register_drivers(std::vector<Property> &v);
