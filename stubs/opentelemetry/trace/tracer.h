#pragma once
#include "opentelemetry/trace/provider.h"
