/**
 * Copyright (C) 2022 Intel Corporation
 * Copyright 2017 MapD Technologies, Inc.
 *
 * SPDX-License-Identifier: Apache-2.0
 */

#ifndef RELEASE_H
#define RELEASE_H

#include <string>

static const std::string MAPD_RELEASE{
    "0.9.0dev-20261112-79454395b2"};

#endif
