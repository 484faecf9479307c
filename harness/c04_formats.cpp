// C04: dbmp / hsv / CSV / PNM: what is stored is what comes back.
#include "iofmt.hpp"
using namespace vp;
namespace
{
    Sz fsize(Rng& r) { return r.chance(0.004) ? (event("extents_over_15_bits"), r.chance(0.5) ? Sz{ r.size(33000, 70000), 1 } : Sz{ 1, r.size(33000, 70000) }) : r.chance(0.2) ? Sz{ r.size(1, 200), r.size(1, 3) } : r.chance(0.2) ? Sz{ r.size(1, 3), r.size(1, 100) } : Sz{ r.size(1, 24), r.size(1, 24) }; }
}
VP_SECTION("dbmp", 2000, 40000)
{
    const Sz s = fsize(r);
    Image<double> im(s);
    for (auto& v : im.getImageData()) v = any_double(r);
    c.describe(shows(s), " filler=", s[0] % 8);
    const std::string base = tmpdir() + "/d", path = base + ".dbmp";
    const int fd0 = open_fd_count();
    const Ref<double> keep = snap(im);
    require(TinyDIP::double_image::write(base.c_str(), im) == 0, "dbmp/write", "write failed");
    const bool ext = r.chance(0.5);
    const Image<double> back = TinyDIP::double_image::read(ext ? path.c_str() : base.c_str(), ext);
    expect(back, keep, "dbmp/roundtrip");
    for (std::size_t i = 0; i < keep.d.size(); ++i) require(bits_equal(back.getImageData()[i], keep.d[i]), "dbmp/bits", "element ", i, " changed its bits");
    const Bytes b = slurp(path);
    require(b.size() == 54 + 8 * (s[0] + s[0] % 8) * s[1], "dbmp/layout", "file has ", b.size(), " bytes");
    require(get32(b, 18) == s[0] && get32(b, 22) == s[1], "dbmp/layout", "stored size");
    for (std::size_t y = 0; y < s[1]; ++y) for (std::size_t x = 0; x < s[0]; ++x)
    {
        double d; std::memcpy(&d, &b[54 + 8 * (y * (s[0] + s[0] % 8) + x)], 8);
        require(bits_equal(d, keep(x, y)), "dbmp/layout", "stored pixel (", x, ",", y, ")");
    }
    TinyDIP::double_image::write((tmpdir() + "/d2").c_str(), im);
    require(slurp(tmpdir() + "/d2.dbmp") == b, "dbmp/deterministic", "two writes of one image differ: uninitialised bytes reach the file");
    require(open_fd_count() == fd0, "dbmp/fd-leak", "descriptors leaked");
    event("dbmp_files");
}
VP_SECTION("dbmp_foreign", 800, 10000)
{
    const Sz s = fsize(r);
    Ref<double> im(s);
    for (auto& v : im.d) v = any_double(r);
    c.describe(shows(s));
    const std::string path = tmpdir() + "/f.dbmp";
    spit(path, raw_doubles(s[0], s[1], 1, [&](auto x, auto y, auto) { return im(x, y); }, [&] { return r.real(-9, 9); }));
    expect(TinyDIP::double_image::read(path.c_str(), true), im, "dbmp/foreign");
}
VP_SECTION("hsv", 1500, 30000)
{
    const Sz s = fsize(r);
    Image<HSV> im(s);
    for (auto& v : im.getImageData()) for (auto& x : v.channels) x = any_double(r);
    c.describe(shows(s), " filler=", s[0] % 8);
    const std::string base = tmpdir() + "/h", path = base + ".hsv";
    const int fd0 = open_fd_count();
    require(TinyDIP::hsv_write(base.c_str(), im) == 0, "hsv/write", "write failed");
    const bool ext = r.chance(0.5);
    const Image<HSV> back = TinyDIP::hsv_read(ext ? path.c_str() : base.c_str(), ext);
    require(back.getWidth() == s[0] && back.getHeight() == s[1] && back.getImageData().size() == s[0] * s[1], "hsv/roundtrip", "shape");
    for (std::size_t i = 0; i < im.getImageData().size(); ++i) for (int k = 0; k < 3; ++k)
        require(bits_equal(back.getImageData()[i].channels[k], im.getImageData()[i].channels[k]), "hsv/roundtrip", "pixel ", i, " channel ", k, " changed its bits");
    const Bytes b = slurp(path);
    require(b.size() == 54 + 8 * (s[0] * 3 + s[0] % 8) * s[1], "hsv/layout", "file has ", b.size(), " bytes");
    TinyDIP::hsv_write((tmpdir() + "/h2").c_str(), im);
    require(slurp(tmpdir() + "/h2.hsv") == b, "hsv/deterministic", "two writes of one image differ: uninitialised bytes reach the file");
    require(open_fd_count() == fd0, "hsv/fd-leak", "descriptors leaked");
    event("hsv_files");
}
VP_SECTION("csv_double", 2500, 40000)
{
    const Sz s = fsize(r);
    Image<double> im(s);
    const int prec = r.chance(0.5) ? -1 : (int)r.range(0, 12);
    const int kind = (int)r.range(0, 2);
    for (auto& v : im.getImageData())
        v = kind == 0 ? (double)r.range(-100000, 100000) : kind == 1 ? r.real(-1e5, 1e5) : r.real(-1, 1) * std::pow(10.0, (double)r.range(-20, 20));
    const int wv = (int)r.range(0, 4), rv = (int)r.range(0, 4);
    c.describe(shows(s), " precision=", prec, " kind=", kind, " writer=", wv, " reader=", rv);
    const std::string path = tmpdir() + "/c.csv";
    Pure<double> p(im, "csv/write");
    if (wv == 4) TinyDIP::double_image::write_to_csv(path.c_str(), im, prec);
    else with_policy(wv, [&](auto&& pol) { TinyDIP::double_image::write_to_csv(pol, path, im, prec); });
    p.check();
    Image<double> back;
    if (rv == 4) back = TinyDIP::double_image::read_from_csv<double>(path.c_str());
    else with_policy(rv, [&](auto&& pol) { back = TinyDIP::double_image::read_from_csv(pol, path.c_str()); });
    const Ref<double> want = snap(im);
    require(back.getDimensionality() == 2 && back.getWidth() == s[0] && back.getHeight() == s[1], "csv/roundtrip", "shape ", shows(back.getSize()), " instead of ", shows(s));
    for (std::size_t i = 0; i < want.d.size(); ++i)
    {
        const double e = std::fabs(back.getImageData()[i] - want.d[i]);
        const double lim = prec < 0 ? std::fabs(want.d[i]) * 5.1e-6 : 0.5000001 * std::pow(10.0, -prec) + std::fabs(want.d[i]) * 1e-15;
        require(e <= lim, "csv/roundtrip", "element (", index_of(i, s), ") ", want.d[i], " came back as ", back.getImageData()[i]);
    }
    // independent parse of the file: one line per row, comma-separated
    std::ifstream f(path);
    std::string line;
    std::size_t y = 0;
    while (std::getline(f, line))
    {
        std::size_t x = 0;
        const char* q = line.c_str();
        while (*q)
        {
            char* e;
            const double d = std::strtod(q, &e);
            require(e != q && x < s[0] && y < s[1] && (*e == ',' || *e == 0), "csv/layout", "row ", y, " is not a comma-separated row of numbers");
            require(d == back.getImageData()[y * s[0] + x], "csv/layout", "cell (", x, ",", y, ") read as ", back.getImageData()[y * s[0] + x], " but the file says ", d);
            ++x; q = *e ? e + 1 : e;
        }
        require(x == s[0], "csv/layout", "row ", y, " has ", x, " cells");
        ++y;
    }
    require(y == s[1], "csv/layout", "the file has ", y, " rows");
    event("csv_cells", want.d.size());
}
VP_SECTION("csv_int", 600, 8000)
{
    const Sz s = fsize(r);
    Image<int> im(s);
    for (auto& v : im.getImageData()) v = (int)r.range(-2000000000, 2000000000);
    c.describe(shows(s));
    const std::string path = tmpdir() + "/ci.csv";
    TinyDIP::double_image::write_to_csv(path.c_str(), im);
    expect_same(TinyDIP::double_image::read_from_csv<int>(path.c_str()), im, "csv/int");
    expect_same((TinyDIP::double_image::read_from_csv<decltype(std::execution::par)&, int>(std::execution::par, path.c_str())), im, "csv/int");
}
VP_SECTION("pnm", 2500, 40000)
{
    const Sz s = fsize(r);
    const Image<RGB> im = rnd_image<RGB>(r, s);
    const std::string magic = r.pick(std::vector<std::string>{ "P1", "P2", "P3" });
    const int rv = (int)r.range(0, 4);
    c.describe(magic, " ", shows(s), " reader=", rv);
    const std::string path = tmpdir() + "/p.pnm";
    Pure<RGB> p(im, "pnm/write");
    TinyDIP::pnm::write(im, path, magic);
    p.check();
    auto rd = [&](const std::string& pa) {
        Image<RGB> back;
        if (rv == 4) back = TinyDIP::pnm::read(pa);
        else with_policy(rv, [&](auto&& pol) { back = TinyDIP::pnm::read(pol, pa); });
        return back;
    };
    Ref<RGB> want = snap(im);
    for (auto& v : want.d)
    {
        if (magic == "P1") { const std::uint8_t k = v.channels[0] ? 1 : 0; v = RGB{ { k, k, k } }; }
        else if (magic == "P2") v = RGB{ { v.channels[0], v.channels[0], v.channels[0] } };
    }
    Image<RGB> back = rd(path);
    if (magic == "P1") for (auto& v : back.getImageData()) for (auto& k : v.channels) k = k ? 1 : 0;
    expect(back, want, "pnm/roundtrip");
    // independent parse of what was written: header, then rows from the top of the picture
    std::ifstream f(path);
    std::string m; std::size_t w = 0, h = 0; int mx = 1;
    f >> m >> w >> h; if (magic != "P1") f >> mx;
    require(m == magic && w == s[0] && h == s[1] && (magic == "P1" || mx == 255), "pnm/layout", "header ", m, " ", w, " ", h, " ", mx);
    for (std::size_t y = 0; y < h; ++y) for (std::size_t x = 0; x < w; ++x)
        for (int k = 0; k < (magic == "P3" ? 3 : 1); ++k)
        {
            int v = -1; f >> v;
            const int o = want(x, h - 1 - y).channels[k];
            require(v == (magic == "P1" ? 1 - o : o), "pnm/layout", "sample (", x, ",", y, ",", k, ") is ", v);
        }
    int extra; require(!(f >> extra), "pnm/layout", "samples after the last pixel");
    event("pnm_" + magic);
}
VP_SECTION("pnm_foreign", 2000, 30000)
{
    // files by an independent writer: comments, any whitespace, maxval 2^k-1
    const Sz s = { r.size(1, 16), r.size(1, 16) };
    const std::string magic = r.pick(std::vector<std::string>{ "P1", "P2", "P3" });
    const int bits = magic == "P1" ? 1 : (int)r.range(1, 16);
    auto ws = [&] { return std::string(r.chance(0.1) ? "\n# a comment 1 2 3\n" : r.chance(0.3) ? "\n" : r.chance(0.2) ? "  \t" : " "); };
    std::string t = magic + ws() + std::to_string(s[0]) + ws() + std::to_string(s[1]) + ws();
    if (magic != "P1") t += std::to_string((1 << bits) - 1) + ws();
    Ref<RGB> want(s);
    for (std::size_t y = 0; y < s[1]; ++y) for (std::size_t x = 0; x < s[0]; ++x)
    {
        RGB px{};
        for (int k = 0; k < (magic == "P3" ? 3 : 1); ++k)
        {
            const int v = (int)r.range(0, (1 << bits) - 1);
            t += std::to_string(v) + ws();
            px.channels[k] = (std::uint8_t)(magic == "P1" ? (v ? 0 : 1) : bits <= 8 ? v << (8 - bits) : v >> (bits - 8));
        }
        if (magic != "P3") px.channels[1] = px.channels[2] = px.channels[0];
        want(x, s[1] - 1 - y) = px;
    }
    c.describe(magic, " ", shows(s), " bits=", bits);
    const std::string path = tmpdir() + "/pf.pnm";
    spit(path, t);
    const int rv = (int)r.range(0, 4);
    Image<RGB> back;
    if (rv == 4) back = TinyDIP::pnm::read(path);
    else with_policy(rv, [&](auto&& pol) { back = TinyDIP::pnm::read(pol, path); });
    if (magic == "P1") for (auto& v : back.getImageData()) for (auto& k : v.channels) k = k ? 1 : 0;
    expect(back, want, "pnm/foreign");
}
