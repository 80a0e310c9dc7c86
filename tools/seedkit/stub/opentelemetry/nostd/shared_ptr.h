#pragma once
#include <memory>
namespace opentelemetry::nostd { template <class T> using shared_ptr = std::shared_ptr<T>; template <class T> using unique_ptr = std::unique_ptr<T>; }
