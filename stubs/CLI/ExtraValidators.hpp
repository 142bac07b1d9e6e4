// The CLI11 installed here (2.4.1) has these validators in CLI/Validators.hpp.
#pragma once
#include <CLI/App.hpp>
#include <CLI/Validators.hpp>
#include <CLI/TypeTools.hpp>
