#include "crgh.hpp"
int main( int argc, char ** argv ){ return h::run( argc, argv ); }
