// --------------------------------------------------------------------------
//
// Copyright (C) 2025-present by Pablo Antolin
//
// This file is part of the QUGaR library.
//
// SPDX-License-Identifier:    MIT
//
// --------------------------------------------------------------------------

#ifndef QUGAR_VERSION_HPP
#define QUGAR_VERSION_HPP

//! @file version.hpp
//! @author Pablo Antolin (pablo.antolin@epfl.ch)
//! @brief QUGaR's version definition.
//! @date 2025-01-21
//!
//! @copyright Copyright (c) 2025-present

#include <string_view>

namespace qugar {
// clang-format off
constexpr int QUGAR_VERSION_MAJOR = { 0 };
constexpr int QUGAR_VERSION_MINOR = { 0 };
constexpr int QUGAR_VERSION_PATCH = { 0 };
constexpr int QUGAR_VERSION_TWEAK = { 0 };
// clang-format on
constexpr std::string_view QUGAR_VERSION_STRING{ "0.0.0" };
constexpr std::string_view QUGAR_VERSION_GIT{ "x" };

}// namespace qugar

#endif// QUGAR_VERSION_HPP
