// C02: BMP files: what is written is what a BMP decoder sees, and what is read is what an encoder stored.
#include "iofmt.hpp"
using namespace vp;
namespace
{
    Sz bmp_size(Rng& r)
    {
        switch (r.range(0, 9))
        {
        case 0: return { r.size(1, 9), 1 };
        case 1: return { 1, r.size(1, 40) };
        case 2: return { r.size(1, 300), r.size(1, 4) };
        case 3: return { r.size(255, 260), r.size(1, 3) };
        case 4: return { r.size(1, 3), r.size(254, 259) };
        default: return { r.size(1, 40), r.size(1, 40) };
        }
    }
}
VP_SECTION("write_read", 1500, 30000)
{
    const Sz s = bmp_size(r);
    const Image<RGB> im = rnd_image<RGB>(r, s);
    c.describe(shows(s), " pad=", (4 - s[0] * 3 % 4) % 4);
    const std::string base = tmpdir() + "/w", path = base + ".bmp";
    ::unlink(path.c_str());
    Pure<RGB> p(im, "bmp/write");
    const int fd0 = open_fd_count();
    const int rc = r.chance(0.5) ? TinyDIP::bmp_write(base.c_str(), im) : TinyDIP::bmp_write(base, im);
    require(rc == 0, "bmp/write", "bmp_write returned ", rc);
    p.check();
    const Bytes b = slurp(path);
    const Ref<RGB> dec = decode_bmp24(b);
    expect(im, dec, "bmp/write-decoded");
    const Image<RGB> back = r.chance(0.5) ? TinyDIP::bmp_read(path.c_str(), true) : TinyDIP::bmp_read(base.c_str(), false);
    expect_same(back, im, "bmp/roundtrip");
    require(TinyDIP::bmp_read_x_size(path.c_str(), true) == s[0] && TinyDIP::bmp_read_y_size(base.c_str(), false) == s[1], "bmp/size", "size readers disagree");
    require(open_fd_count() == fd0, "bmp/fd-leak", "open descriptors grew from ", fd0, " to ", open_fd_count());
    // deterministic output, byte for byte (no uninitialised padding)
    const std::string base2 = tmpdir() + "/w2";
    TinyDIP::bmp_write(base2.c_str(), im);
    require(slurp(base2 + ".bmp") == b, "bmp/deterministic", "two writes of one image differ");
    // overwriting a longer file leaves nothing of it
    const Image<RGB> small = rnd_image<RGB>(r, Sz{ 1, 1 });
    require(TinyDIP::bmp_write(base2.c_str(), small) == 0, "bmp/write", "overwrite");
    expect(small, decode_bmp24(slurp(base2 + ".bmp")), "bmp/overwrite");
    event("bytes_decoded", b.size());
    event(cat("pad", (4 - s[0] * 3 % 4) % 4));
}
VP_SECTION("read_encoded24", 1200, 20000)
{
    const Sz s = bmp_size(r);
    const Ref<RGB> im = snap(rnd_image<RGB>(r, s));
    const bool td = r.chance(0.4);
    const std::size_t dib = r.chance(0.2) ? (r.chance(0.5) ? 108 : 124) : 40;
    const std::size_t gap = r.chance(0.2) ? r.size(1, 90) : 0;
    c.describe(shows(s), td ? " top-down" : " bottom-up", " dib=", dib, " gap=", gap);
    const std::string path = tmpdir() + "/e.bmp";
    spit(path, bmp24(im, td, gap, dib));
    const int fd0 = open_fd_count();
    expect(TinyDIP::bmp_read(path.c_str(), true), im, "bmp/read24");
    require(open_fd_count() == fd0, "bmp/fd-leak", "open descriptors grew from ", fd0, " to ", open_fd_count());
    event(td ? "top_down_files" : "bottom_up_files");
}
VP_SECTION("read_encoded8", 1200, 20000)
{
    const Sz s = bmp_size(r);
    const bool td = r.chance(0.3);
    const std::size_t np = r.chance(0.6) ? 256 : r.size(1, 255);
    std::vector<RGB> pal(np);
    for (auto& p : pal) p = rnd_value<RGB>(r);
    Ref<std::uint8_t> idx(s);
    Ref<RGB> want(s);
    for (std::size_t i = 0; i < idx.d.size(); ++i) { idx.d[i] = (std::uint8_t)r.range(0, (long long)np - 1); want.d[i] = pal[idx.d[i]]; }
    const std::size_t gap = r.chance(0.3) ? r.size(1, 90) : 0, dib = r.chance(0.3) ? (r.chance(0.5) ? 108 : 124) : 40;
    const bool used = np != 256 || r.chance(0.5);
    c.describe(shows(s), td ? " top-down" : " bottom-up", " palette=", np, " gap=", gap, " dib=", dib);
    const std::string path = tmpdir() + "/p.bmp";
    spit(path, bmp8(idx, pal, td, gap, dib, used));
    expect(TinyDIP::bmp_read(path.c_str(), true), want, "bmp/read8");
    event("palette_files");
}
VP_SECTION("large", 16, 200)
{
    // also extents that need more than 16 bits
    const Sz s = r.chance(0.5) ? Sz{ r.size(700, 1400), r.size(500, 900) } : r.chance(0.5) ? Sz{ r.size(33000, 140000), r.size(1, 2) } : Sz{ r.size(1, 2), r.size(33000, 140000) };
    Image<RGB> im(s);
    for (auto& v : im.getImageData()) { const auto u = r.next(); v = RGB{ { (std::uint8_t)u, (std::uint8_t)(u >> 8), (std::uint8_t)(u >> 16) } }; }
    c.describe(shows(s));
    const std::string base = tmpdir() + "/L";
    require(TinyDIP::bmp_write(base.c_str(), im) == 0, "bmp/write", "bmp_write failed");
    expect(im, decode_bmp24(slurp(base + ".bmp")), "bmp/write-decoded");
    expect_same(TinyDIP::bmp_read((base + ".bmp").c_str(), true), im, "bmp/roundtrip");
    require(TinyDIP::bmp_read_x_size(base.c_str(), false) == s[0] && TinyDIP::bmp_read_y_size(base.c_str(), false) == s[1], "bmp/size", "size readers disagree");
    event(std::max(s[0], s[1]) > 65535 ? "extents_over_16_bits" : "large_files");
    ::unlink((base + ".bmp").c_str());
}
VP_SECTION("missing", 20, 50)
{
    c.describe("missing file ", r.next() % 1000);
    const std::string path = tmpdir() + "/does-not-exist";
    require(throws([&] { TinyDIP::bmp_read(path.c_str(), r.chance(0.5)); }), "bmp/missing", "reading a missing file did not throw");
    require(TinyDIP::bmp_write((tmpdir() + "/no/such/dir/x").c_str(), Image<RGB>(Sz{ 2, 2 })) != 0, "bmp/unwritable", "writing into a missing directory reported success");
}
