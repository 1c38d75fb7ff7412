// engine_driver with every building step on its own
#define FINE_STEPS
#include "engine_driver.cpp"
