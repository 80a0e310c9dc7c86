#pragma once
#include_next <CLI/Validators.hpp>
