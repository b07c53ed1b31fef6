#pragma once
#include "common.hh"
#include "pclean/schema.hh"
std::string jpclean(const PCleanSchema& s);
