#include "libmap.h"
#include <marc/Mercator.h>
#include <marc/Orthographic.h>
#include <marc/PolarStereographic.h>
#include <marc/SimpleCylindrical.h>
#include <marc/OblateSpheroid.h>
#include <marc/PhotoImage.h>
#include <marc/PhotoImageParameters.h>
#include <marc/ViewingGeometry.h>
#include <marc/BilinearInterpolation.h>
#include <marc/GLLGeometricCorrection.h>
#include <marc/MosaicImage.h>
#include <marc/first_read.h>
#include <marc/unweighted_average.h>
#include <marc/weighted_average.h>
#include <marc/MuImage.h>
#include <marc/Mu0Image.h>
#include <marc/CosPhaseImage.h>
#include <marc/LatitudeImage.h>
#include <marc/LongitudeImage.h>
#include <marc/plot_info.h>
#include <marc/extrema.h>
#include <marc/Observer.h>
#include <marc/Notifier.h>
#include <cmath>
#include <cstdint>
#include <limits>

namespace {
struct Rng {
    uint64_t s;
    uint64_t u() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    double f(double a, double b) { return a + (b - a) * (double) (u() >> 11) / 9007199254740992.0; }
    int i(int n) { return (int) (u() % (uint64_t) n); }
};
uint64_t fnv(void const * p, std::size_t n)
{
    auto c = static_cast<unsigned char const *>(p);
    uint64_t h = 1469598103934665603ull;
    for (std::size_t k = 0; k < n; ++k) h = (h ^ c[k]) * 1099511628211ull;
    return h;
}
std::unique_ptr<MaRC::PhotoImage> photo(Rng & r, std::shared_ptr<MaRC::OblateSpheroid> const & body, double slat, double slon)
{
    std::size_t const w = 16 + r.i(16), h = 16 + r.i(16);
    std::vector<double> v(w * h);
    double const base = r.f(1, 100);
    for (std::size_t k = 0; k < v.size(); ++k)
        v[k] = r.i(12) ? base + (double) (k % w) + .25 * (double) (k / w) : std::numeric_limits<double>::quiet_NaN();
    auto g = std::make_unique<MaRC::ViewingGeometry>(body);
    g->sub_observ(slat + r.f(-10, 10), slon + r.f(-20, 20));
    g->sub_solar(slat + r.f(-10, 10), slon + r.f(-20, 20));
    g->position_angle(r.f(0, 350));
    g->range(body->eq_rad() * r.f(20, 60));
    g->km_per_pixel(2 * body->eq_rad() / (16 * r.f(.8, 1.2)));
    g->body_center(w / 2.0 + r.f(-1, 1), h / 2.0 + r.f(-1, 1));
    if (r.i(3) == 0) g->emi_ang_limit(r.f(60, 85));
    if (r.i(2)) g->use_terminator(false);
    if (r.i(4) == 0) g->geometric_correction(std::make_unique<MaRC::GLLGeometricCorrection>(w));
    auto c = std::make_unique<MaRC::PhotoImageParameters>();
    if (r.i(2)) c->nibble_left(r.i(3));
    if (r.i(2)) c->nibble_top(r.i(3));
    if (r.i(2)) c->remove_sky(true);
    if (r.i(2)) c->interpolation_strategy(std::make_unique<MaRC::BilinearInterpolation>(w, h, c->nibble_left(), c->nibble_right(), c->nibble_top(), c->nibble_bottom()));
    g->finalize_setup(w, h);
    return std::make_unique<MaRC::PhotoImage>(std::move(v), w, h, std::move(c), std::move(g));
}
struct Probe final : MaRC::SourceImage {
    MaRC::SourceImage const & in; Hook & k;
    Probe(MaRC::SourceImage const & i, Hook & h) : in(i), k(h) {}
    bool read_data(double lat, double lon, double & d) const override { k.read(); return in.read_data(lat, lon, d); }
};
struct Recorder final : MaRC::Progress::Observer {
    Hook & k;
    explicit Recorder(Hook & h) : k(h) {}
    void notify(std::size_t s, std::size_t c) override { k.notify(s, c); }
    void reset() override { k.reset(); }
};
template <typename T> void planes(World const & w, Task const & t, Hook & k)
{
    MaRC::plot_info<T> info(t.samples, t.lines);
    info.notifier().subscribe(std::make_unique<Recorder>(k));
    for (int p = 0; p < t.planes; ++p) {
        Probe const img(*w.img[(t.img + p) % w.img.size()], k);
        MaRC::extrema<T> mm;
        if (p % 2) mm.maximum(static_cast<T>(80));
        k.plane_begin(p);
        bool ok = false;
        uint64_t h = 0;
        try {
            k.arm(true);
            auto const m = w.proj[t.proj]->template make_map<T>(img, mm, info);
            k.arm(false);
            h = fnv(m.data(), m.size() * sizeof(T)) ^ m.size();
            ok = true;
        } catch (...) { k.arm(false); }
        k.plane_end(p, ok, h, info.data_mapped());
    }
}
}

/* Projections and images of one body; "rich": with options. */
static void furnish(World & w, Rng & r, bool rich)
{
    static double const rad[4][2] = {{71492, 66854}, {60268, 54364}, {1737.4, 1736.0}, {3396.2, 3396.2}};
    auto const & q = rad[r.i(4)];
    auto body = std::make_shared<MaRC::OblateSpheroid>(r.i(3) != 0, q[0], q[1]);
    double const slat = r.f(-40, 40), slon = r.f(30, 330);
    double const nan = std::numeric_limits<double>::quiet_NaN();
    if (rich) {
        double const a = r.f(-80, 20), lo = r.f(0, 300);
        w.proj.push_back(std::make_unique<MaRC::SimpleCylindrical>(body, a, a + r.f(20, 60), lo, r.i(2) ? lo + r.f(10, 50) : lo * r.f(.1, .9), r.i(2) != 0));
    } else
        w.proj.push_back(std::make_unique<MaRC::SimpleCylindrical>(body, -90, 90, 0, 360, r.i(2) != 0));
    w.proj.push_back(std::make_unique<MaRC::Mercator>(body));
    bool const north = r.i(2) != 0;
    w.proj.push_back(std::make_unique<MaRC::PolarStereographic>(body, rich ? (north ? 1 : -1) * r.f(-20, 60) : nan, north));
    MaRC::OrthographicCenter oc;
    if (rich)
        switch (r.i(3)) {
        case 0:
            oc.geometry = MaRC::CENTER_GIVEN;
            oc.sample_lat_center = r.f(2, 14);
            oc.line_lon_center = r.f(2, 14);
            break;
        case 1:
            oc.geometry = MaRC::LAT_LON_GIVEN;
            oc.sample_lat_center = slat + r.f(-20, 20);
            oc.line_lon_center = slon + r.f(-20, 20);
            break;
        }
    w.proj.push_back(std::make_unique<MaRC::Orthographic>(body, slat, slon, r.f(0, 350), rich && r.i(2) ? body->eq_rad() * r.f(.05, .3) : -1, oc));
    w.img.push_back(photo(r, body, slat, slon));
    MaRC::MosaicImage::list_type l;
    for (int n = 2 + r.i(2); n > 0; --n) l.push_back(photo(r, body, slat, slon));
    std::unique_ptr<MaRC::compositing_strategy> c;
    switch (r.i(3)) {
    case 0: c = std::make_unique<MaRC::first_read>(); break;
    case 1: c = std::make_unique<MaRC::unweighted_average>(); break;
    default: c = std::make_unique<MaRC::weighted_average>();
    }
    w.img.push_back(std::make_unique<MaRC::MosaicImage>(std::move(l), std::move(c)));
    w.img.push_back(std::make_unique<MaRC::MuImage>(body, slat, slon, body->eq_rad() * 30, 100, 0));
    w.img.push_back(std::make_unique<MaRC::Mu0Image>(body, slat, slon, 100, 0));
    w.img.push_back(std::make_unique<MaRC::CosPhaseImage>(body, slat, slon, slat + 20, slon + 10, body->eq_rad() * 30, 100, 0));
    w.img.push_back(std::make_unique<MaRC::LatitudeImage>(body, r.i(2) != 0, 1, 0));
    w.img.push_back(std::make_unique<MaRC::LongitudeImage>(.3, 0));
}

World make_world(uint64_t seed)
{
    Rng r{seed};
    World w;
    furnish(w, r, false);
    furnish(w, r, true);
    return w;
}

void run_task(World const & w, Task const & t, Hook & k)
{
    switch (t.type) {
    case 'b': planes<unsigned char>(w, t, k); break;
    case 's': planes<short>(w, t, k); break;
    case 'f': planes<float>(w, t, k); break;
    default:  planes<double>(w, t, k);
    }
}

uint64_t make_grid(World const & w, Task const & t)
{
    auto const g = w.proj[t.proj]->make_grid(t.samples, t.lines, 10 + 5 * (t.samples % 3), 30 + 15 * (t.lines % 2));
    return fnv(g.data(), g.size()) ^ g.size();
}
