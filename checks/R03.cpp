// R03: same-orientation edges of every roadmap of the 2D and the 3D lattice.
#define WHAT 3
#define NO_MAIN
#include "R2D.cpp"
#include "R3D.cpp"
int main(int argc, char** argv) {
    mc::Options o;
    o.splitDepth = 5;
    return mc::run(argc, argv, [] { if (mc::choose(2, "dimension")) body3(); else body2(); }, o);
}
