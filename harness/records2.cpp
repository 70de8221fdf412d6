// A second translation unit with records for equally named designs.
#define SECOND_UNIT 1
#include "records.cpp"
