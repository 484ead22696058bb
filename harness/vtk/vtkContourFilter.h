#include "vtk_standin.hpp"
