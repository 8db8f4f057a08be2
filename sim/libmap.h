// Mapping as an application of the MaRC library would do it.
#ifndef LIBMAP_H
#define LIBMAP_H
#include <cstddef>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <marc/MapFactory.h>
#include <marc/SourceImage.h>

struct Task { int proj, img; char type; long samples, lines; int planes; long throw_at, oom_at; };
struct Hook {                       // what the simulator wants to know and do
    virtual ~Hook() = default;
    virtual void read() = 0;        // a datum is about to be read (may throw)
    virtual void notify(std::size_t size, std::size_t count) = 0;
    virtual void reset() = 0;
    virtual void plane_begin(int p) = 0;
    virtual void plane_end(int p, bool ok, uint64_t hash, bool mapped) = 0;
    virtual void arm(bool) = 0;     // allocations may fail from here on
};
struct World {
    std::vector<std::unique_ptr<MaRC::MapFactory>> proj;
    std::vector<std::unique_ptr<MaRC::SourceImage>> img;
};
World make_world(uint64_t seed);
void run_task(World const &, Task const &, Hook &);
uint64_t make_grid(World const &, Task const &);
#endif
