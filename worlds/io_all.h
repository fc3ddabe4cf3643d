// All the formats: il::load and il::save must be the same functions in all the
// files of a program.
#pragma once
#include <il/Array.h>
#include <il/Array2D.h>
#include <il/Dynamic.h>
#include <il/Map.h>
#include <il/MapArray.h>
#include <il/data.h>
#include <il/io/numpy/numpy.h>
#include <il/io/toml/toml.h>
