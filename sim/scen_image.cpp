// Images: I01 (a file written without error decodes to the rendered image).
#include "image.h"
#include <cmath>
#include <limits>
#include <png.h>

using namespace sim;

namespace sim {

Img gen_image(bool allow_empty, unsigned large) {
    Img m;
    static const unsigned sz[] = {1, 2, 3, 5, 8, 17, 33, 64};
    m.rows = maybe(large) ? 1 + op(2500) : sz[op(8)];
    m.cols = m.rows > 200 ? 1 + op(4) : sz[op(8)];
    if (maybe(6)) { m.rows = 250 + op(120); m.cols = 250 + op(120); }      // more than 2^16 pixels
    else {
        if (large && maybe(2)) { m.rows = 65530 + op(9000); m.cols = 1 + op(2); }
        if (maybe(500)) std::swap(m.rows, m.cols);
    }
    if (allow_empty && maybe(30)) { if (maybe(500)) m.rows = 0; else m.cols = 0; }
    m.png = maybe(500);
    m.cmap = op(4);                                // gerimap, gray, custom, default
    if (m.cmap == 2) {
        unsigned n = 1 + op(6);
        for (unsigned i = 0; i < n; i++) m.colors.push_back({op(256), op(256), op(256)});
        m.vmin = maybe(500) ? 0 : (int)op(200) / 10.0 - 10;
        m.vmax = m.vmin + (maybe(500) ? 1 : (1 + op(1000)) / 10.0);
    }
    Rng r(op(1u << 30));
    unsigned kind = op(4);
    m.v.resize((size_t)m.rows * m.cols);
    for (auto &x : m.v) {
        x = kind == 0 ? 0.5 : m.vmin + (m.vmax - m.vmin) * r.unit();
        if (kind == 2) x = m.vmin + (m.vmax - m.vmin) * (r.unit() * 3 - 1);
        if (kind == 3) switch (r.below(8)) {
            case 0: x = std::numeric_limits<double>::infinity(); break;
            case 1: x = -std::numeric_limits<double>::infinity(); break;
            case 2: x = 1e300; break;
            case 3: x = -1e300; break;
            case 4: x = m.vmin; break;
            case 5: x = m.vmax; break;
            case 6: x = 5e-324; break;
            default: break;
        }
    }
    return m;
}

void save_image(const Img &m, const std::string &p) {
    auto t = m.png ? ImageGenerator::IMAGE_TYPE_PNG : ImageGenerator::IMAGE_TYPE_PPM;
    if (m.cmap == 0) ImageGenerator::gen(t, p, m.v.data(), m.rows, m.cols, ImageGenerator::COLORMAP_GERIMAP);
    else if (m.cmap == 1) ImageGenerator::gen(t, p, m.v.data(), m.rows, m.cols, ImageGenerator::COLORMAP_GRAY);
    else if (m.cmap == 3) ImageGenerator::gen(t, p, m.v.data(), m.rows, m.cols);
    else {
        ImageColormap cm(m.colors.data(), (unsigned)m.colors.size(), m.vmin, m.vmax);
        ImageGenerator::gen(t, p, m.v.data(), m.rows, m.cols, &cm);
    }
}

static bool decode_ppm(const std::string &d, unsigned &w, unsigned &h, std::vector<int> &px) {
    size_t o = 0; bool ok = true;
    auto tok = [&]() -> std::string {
        for (;;) {
            while (o < d.size() && isspace((unsigned char)d[o])) o++;
            if (o < d.size() && d[o] == '#') { while (o < d.size() && d[o] != '\n') o++; continue; }
            break;
        }
        size_t b = o;
        while (o < d.size() && !isspace((unsigned char)d[o])) o++;
        if (b == o) ok = false;
        return d.substr(b, o - b);
    };
    auto num = [&]() -> long {
        std::string s = tok();
        for (char c : s) if (!isdigit((unsigned char)c)) ok = false;
        return ok ? atol(s.c_str()) : 0;
    };
    if (tok() != "P3") return false;
    w = (unsigned)num(); h = (unsigned)num();
    long max = num();
    if (!ok || max != 255) return false;
    for (size_t i = 0; ok && i < (size_t)w * h * 3; i++) { long v = num(); if (v > 255) return false; px.push_back((int)v); }
    if (!ok) return false;
    while (o < d.size()) if (!isspace((unsigned char)d[o++])) return false;
    return true;
}
static bool decode_png(const std::string &d, unsigned &w, unsigned &h, std::vector<int> &px) {
    png_image im; memset(&im, 0, sizeof im); im.version = PNG_IMAGE_VERSION;
    // a complete PNG ends with the IEND chunk
    static const unsigned char iend[12] = {0, 0, 0, 0, 'I', 'E', 'N', 'D', 0xae, 0x42, 0x60, 0x82};
    if (d.size() < 12 || memcmp(d.data() + d.size() - 12, iend, 12)) return false;
    if (!png_image_begin_read_from_memory(&im, d.data(), d.size())) return false;
    im.format = PNG_FORMAT_RGB;
    std::vector<unsigned char> b(PNG_IMAGE_SIZE(im));
    w = im.width; h = im.height;
    if (!png_image_finish_read(&im, nullptr, b.data(), 0, nullptr) || im.warning_or_error) { png_image_free(&im); return false; }
    px.assign(b.begin(), b.end());
    return true;
}

void check_image(const Img &m, const std::string &p, const char *cls) {
    std::string d = slurp(p);
    const char *t = m.png ? "PNG" : "PPM";
    unsigned w = 0, h = 0; std::vector<int> px;
    checked();
    if (!(m.png ? decode_png(d, w, h, px) : decode_ppm(d, w, h, px))) violate(cls, "%s image of %ux%u written without error does not decode (%zu bytes)", t, m.rows, m.cols, d.size());
    if (w != m.rows || h != m.cols) violate(cls, "%s image has size %ux%u instead of %ux%u", t, w, h, m.rows, m.cols);
    static const ImageColormap::scolor_t ger[9] = {{0,0,0},{38,38,128},{76,38,191},{153,51,128},{255,64,38},{230,128,0},{230,191,26},{230,230,128},{255,255,255}}, gray[2] = {{0,0,0},{255,255,255}};
    const ImageColormap::scolor_t *c = m.cmap == 1 ? gray : m.cmap == 2 ? m.colors.data() : ger;
    unsigned n = m.cmap == 1 ? 2 : m.cmap == 2 ? (unsigned)m.colors.size() : 9;
    for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) {
        double v = m.v[(size_t)x * m.cols + y];
        double s = (v - m.vmin) / (m.vmax - m.vmin);
        s = s < 0 ? 0 : s > 1 ? 1 : s;
        double i = s * (n - 1); unsigned l = (unsigned)i; if (l + 1 >= n) l = n - 1;
        double f = l + 1 < n ? i - l : 0;
        const ImageColormap::scolor_t &a = c[l], &b = c[l + 1 < n ? l + 1 : l];
        double e[3] = {(1 - f) * a.red + f * b.red, (1 - f) * a.green + f * b.green, (1 - f) * a.blue + f * b.blue};
        for (int k = 0; k < 3; k++) {
            int g = px[((size_t)y * w + x) * 3 + k];
            checked();
            // colours are the interpolated ones up to the rounding of one step
            if (std::fabs(g - e[k]) > 1.000001) violate(cls, "%s image %ux%u: component %d of pixel (%u,%u), intensity %g, is %d instead of %g", t, m.rows, m.cols, k, x, y, v, g, e[k]);
        }
    }
}

} // namespace sim

// libpng refusing its own allocations
static int png_refuse; static bool png_refused;
extern "C" {
void *__real_png_create_write_struct(const char *, void *, void *, void *);
void *__wrap_png_create_write_struct(const char *v, void *p, void *e, void *w) { if (png_refuse == 1) { png_refused = true; return nullptr; } return __real_png_create_write_struct(v, p, e, w); }
void *__real_png_create_info_struct(void *);
void *__wrap_png_create_info_struct(void *p) { if (png_refuse == 2) { png_refused = true; return nullptr; } return __real_png_create_info_struct(p); }
}

static void i01() {
    plan_faults(FM_WRITE);
    unsigned n = 1 + op(2);
    for (unsigned i = 0; i < n; i++) {
        Img m = gen_image(true);
        std::string p = path(std::string("img") + (m.png ? ".png" : ".ppm"));
        if (maybe(200)) { faults_pause(); spit(p, std::string(op(20000), 'z')); faults_resume(); }
        if (maybe(600)) {                              // the fault within the calls that writing this image makes
            plan_faults(FM_WRITE); faults_pause();
            std::string dry = path("dry"), w; bool t = throws([&] { save_image(m, dry); }, &w);
            if (t && m.rows && m.cols) violate("spurious-failure", "writing an image failed although no write failed: %s", w.c_str());
            faults_fit(1); faults_resume(); remove_file(dry);
        }
        uint64_t h0 = hard_faults; std::string w;
        ev("I01 %s %ux%u colormap %u", m.png ? "png" : "ppm", m.rows, m.cols, m.cmap);
        if (m.png && maybe(40)) {
            png_refuse = 1 + op(2); png_refused = false;
            bool t = throws([&] { save_image(m, p); }, &w); png_refuse = 0;
            ev("save, libpng refusing: %s", t ? "exception" : "ok"); checked(); if (png_refused) count("fault:libpng_refuses");
            if (!t && png_refused) violate("image-damaged", "an image is reported as saved although libpng could not be set up");
            if (open_fds()) violate("file-left-open", "%s is still open after libpng could not be set up", open_fd_names().c_str());
            h0 = hard_faults;
        }
        bool t = throws([&] { save_image(m, p); }, &w);
        ev("save: %s", t ? "exception" : "ok");
        nontrivial(); checked();
        if (t) {
            count("image_write_failed");
            if (hard_faults == h0 && m.rows && m.cols) violate("spurious-failure", "writing an image failed although no write failed for good: %s", w.c_str());
        } else if (m.rows && m.cols) {
            count(hard_faults > h0 ? "image_ok_after_hard_fault" : "image_ok");
            check_image(m, p, "image-damaged");
        }
    }
}
static Reg r("I01", i01, 750);
