// forced include of the IR build: instantiate std::string in the module (libstdc++ otherwise only declares its members), so that its code is executed instead of assumed
#pragma once
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
