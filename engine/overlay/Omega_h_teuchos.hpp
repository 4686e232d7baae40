#pragma once
#include "omega_h_stub.hpp"
