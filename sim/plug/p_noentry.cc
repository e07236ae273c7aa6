extern "C" int nothing_here() { return 1; }
