#pragma once
#include "../ros_all.hpp"
