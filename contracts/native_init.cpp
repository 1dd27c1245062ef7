// the same initialisation the Python module and the tests perform before anything else
#include "init.hpp"
#include "position.hpp"
#include "book.hpp"
extern "C" void vc_native_init(void) { initTable(); Position::initZobrist(); HuffmanCodedPos::init(); PackedSfen::init(); Book::init(); }
