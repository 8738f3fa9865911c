/**
 * @file encoding.h
 * @brief Encoding structure definition.
 * @copyright Copyright (C) 2024 The C++ Plus Project.
 */
/*
 * This file is part of the cppp-reiconv library.
 *
 * The cppp-reiconv library is free software; you can redistribute it
 * and/or modify it under the terms of the GNU Lesser General Public
 * License as published by the Free Software Foundation; either version 3
 * of the License, or (at your option) any later version.
 *
 * The cppp-reiconv library is distributed in the hope that it will be
 * useful, but WITHOUT ANY WARRANTY; without even the implied warranty of
 * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the GNU
 * Lesser General Public License for more details.
 *
 * You should have received a copy of the GNU Lesser General Public
 * License along with the cppp-reiconv library; see the file LICENSE.
 * If not, see <https://www.gnu.org/licenses/>.
 */

#ifndef _ENCODING_H_
#define _ENCODING_H_

#include "reiconv_defines.h"

/**
 * @brief Table of all supported encodings.
 */
struct encoding
{
    struct mbtowc_funcs ifuncs; // Conversion multibyte -> unicode
    struct wctomb_funcs ofuncs; // Conversion unicode -> multibyte
};

#endif /* _ENCODING_H_ */
