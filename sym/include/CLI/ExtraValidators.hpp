#pragma once
#include "App.hpp"
