#pragma once
#include "../../../../fake.hxx"
