// Reference model of an image file.
#pragma once
#include "sim.h"
#include <softlib/ImageGenerator/ImageGenerator.h>
namespace sim {
struct Img {
    unsigned rows, cols, cmap; bool png;
    std::vector<double> v;
    std::vector<ImageColormap::scolor_t> colors;
    double vmin = 0, vmax = 1;
};
Img gen_image(bool allow_empty, unsigned large = 120);
void save_image(const Img &m, const std::string &p);                       // may throw
void check_image(const Img &m, const std::string &p, const char *cls);     // decodes and compares
}
