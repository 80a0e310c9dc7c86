#pragma once
#include <opentelemetry/sdk/sdk.h>
