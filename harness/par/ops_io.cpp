#include "par/ops.hpp"
#include "image_io.h"
static std::string path(const char* ext)
{
    static std::atomic<int> n{ 0 };
    return cat(std::getenv("VP_SCRATCH") ? std::getenv("VP_SCRATCH") : "/tmp", "/par", n.fetch_add(1), ext);
}
POLICY_OP(csv_policy)
{
    const auto a = rnd_image<double>(r, shape(r, 1, 20)); const auto p = path(".csv");
    td::double_image::write_to_csv(pol, p, a, 12); d.add(td::double_image::read_from_csv(pol, p.c_str())); d.tol = 1e-7;
    ::unlink(p.c_str());
}
PLAIN_OP(csv_plain)
{
    const auto a = rnd_image<double>(r, shape(r, 1, 20)); const auto p = path(".csv");
    td::double_image::write_to_csv(p.c_str(), a, 12); d.add(td::double_image::read_from_csv(p.c_str())); d.tol = 1e-7;
    ::unlink(p.c_str());
}
POLICY_OP(pnm_read)
{
    const auto a = rnd_image<RGB>(r, shape(r, 1, 20)); const auto p = path(".ppm");
    td::pnm::write(a, p); d.add(td::pnm::read(pol, p));
    ::unlink(p.c_str());
}
PLAIN_OP(pnm_read_plain)
{
    const auto a = rnd_image<RGB>(r, shape(r, 1, 20)); const auto p = path(".ppm");
    td::pnm::write(a, p); d.add(td::pnm::read(p));
    ::unlink(p.c_str());
}
PLAIN_OP(bmp_roundtrip)
{
    const auto a = rnd_image<RGB>(r, shape(r, 1, 20)); const auto p = path("");
    td::bmp_write(p.c_str(), a); d.add(td::bmp_read(p.c_str(), false));
    ::unlink((p + ".bmp").c_str());
}
PLAIN_OP(dbmp_roundtrip)
{
    const auto a = rnd_image<double>(r, shape(r, 1, 20)); const auto p = path(".dbmp");
    td::double_image::write(p.c_str(), a); d.add(td::double_image::read(p.c_str(), true));
    ::unlink(p.c_str());
}
