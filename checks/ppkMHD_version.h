// stand-in for the header CMake generates
#pragma once
#include <iostream>
namespace ppkMHD { inline void print_version_info() {} }
