#pragma once
#include "standin.hpp"
