// Python 2 member descriptions are not used by these modules
#pragma once
#include <Python.h>
