// Independent encoders/decoders for the on-disk formats, written from the format definitions.
#ifndef VP_IOFMT_HPP
#define VP_IOFMT_HPP
#include "img.hpp"
#include "image_io.h"
#include <fstream>
namespace vp
{
    using Bytes = std::vector<unsigned char>;
    inline void put16(Bytes& b, unsigned v) { b.push_back(v & 255); b.push_back((v >> 8) & 255); }
    inline void put32(Bytes& b, std::uint32_t v) { for (int i = 0; i < 4; ++i) b.push_back((v >> (8 * i)) & 255); }
    inline std::uint32_t get32(const Bytes& b, std::size_t o) { return b[o] | (b[o + 1] << 8) | (b[o + 2] << 16) | ((std::uint32_t)b[o + 3] << 24); }
    inline unsigned get16(const Bytes& b, std::size_t o) { return b[o] | (b[o + 1] << 8); }
    inline Bytes slurp(const std::string& p)
    {
        std::ifstream f(p, std::ios::binary);
        if (!f) fail("file-missing", "file " + p + " was not created");
        return Bytes(std::istreambuf_iterator<char>(f), {});
    }
    inline void spit(const std::string& p, const Bytes& b)
    {
        std::ofstream f(p, std::ios::binary);
        f.write((const char*)b.data(), (std::streamsize)b.size());
        f.close();
        if (!f) { std::fprintf(stderr, "scratch write failed\n"); std::_Exit(3); }
    }
    inline void spit(const std::string& p, const std::string& s) { spit(p, Bytes(s.begin(), s.end())); }

    // image row 0 is the bottom row of the picture (BMP storage order)
    inline Bytes bmp24(const Ref<RGB>& im, bool top_down, std::size_t extra_gap, std::size_t dib = 40)
    {
        Bytes b = { 'B', 'M' };
        const std::size_t row = (im.w() * 3 + 3) / 4 * 4, off = 14 + dib + extra_gap;
        put32(b, (std::uint32_t)(off + row * im.h())); put32(b, 0); put32(b, (std::uint32_t)off);
        put32(b, (std::uint32_t)dib); put32(b, (std::uint32_t)im.w());
        put32(b, top_down ? (std::uint32_t)-(std::int32_t)im.h() : (std::uint32_t)im.h());
        put16(b, 1); put16(b, 24); put32(b, 0); put32(b, (std::uint32_t)(row * im.h())); put32(b, 2835); put32(b, 2835); put32(b, 0); put32(b, 0);
        while (b.size() < off) b.push_back(0xA5);
        for (std::size_t k = 0; k < im.h(); ++k)
        {
            const std::size_t y = top_down ? im.h() - 1 - k : k;
            for (std::size_t x = 0; x < im.w(); ++x) for (int c = 2; c >= 0; --c) b.push_back(im(x, y).channels[c]);
            for (std::size_t p = im.w() * 3; p < row; ++p) b.push_back(0x5A);
        }
        return b;
    }
    inline Bytes bmp8(const Ref<std::uint8_t>& idx, const std::vector<RGB>& pal, bool top_down, std::size_t gap = 0, std::size_t dib = 40, bool count_used = true)
    {
        Bytes b = { 'B', 'M' };
        const std::size_t row = (idx.w() + 3) / 4 * 4, off = 14 + dib + pal.size() * 4 + gap;
        put32(b, (std::uint32_t)(off + row * idx.h())); put32(b, 0); put32(b, (std::uint32_t)off);
        put32(b, (std::uint32_t)dib); put32(b, (std::uint32_t)idx.w());
        put32(b, top_down ? (std::uint32_t)-(std::int32_t)idx.h() : (std::uint32_t)idx.h());
        put16(b, 1); put16(b, 8); put32(b, 0); put32(b, (std::uint32_t)(row * idx.h())); put32(b, 0); put32(b, 0); put32(b, count_used ? (std::uint32_t)pal.size() : 0); put32(b, 0);
        while (b.size() < 14 + dib) b.push_back(0x3C);
        for (auto& p : pal) { b.push_back(p.channels[2]); b.push_back(p.channels[1]); b.push_back(p.channels[0]); b.push_back(0); }
        while (b.size() < off) b.push_back(0xA5);
        for (std::size_t k = 0; k < idx.h(); ++k)
        {
            const std::size_t y = top_down ? idx.h() - 1 - k : k;
            for (std::size_t x = 0; x < idx.w(); ++x) b.push_back(idx(x, y));
            for (std::size_t p = idx.w(); p < row; ++p) b.push_back(0x5A);
        }
        return b;
    }
    // Strict decoder for an uncompressed 24-bit BMP.
    inline Ref<RGB> decode_bmp24(const Bytes& b)
    {
        require(b.size() >= 54 && b[0] == 'B' && b[1] == 'M', "bmp/format", "bad signature or header (", b.size(), " bytes)");
        const std::uint32_t fsz = get32(b, 2), off = get32(b, 10), dib = get32(b, 14), w = get32(b, 18), h = get32(b, 22);
        require(dib == 40 && get16(b, 26) == 1 && get16(b, 28) == 24 && get32(b, 30) == 0, "bmp/format", "header fields: dib=", dib, " planes=", get16(b, 26), " bits=", get16(b, 28));
        const std::size_t row = ((std::size_t)w * 3 + 3) / 4 * 4;
        require(b.size() == off + row * h, "bmp/format", "file has ", b.size(), " bytes, the format needs ", off + row * h, " for ", w, "x", h);
        require(fsz == b.size(), "bmp/format", "header file size ", fsz, " but the file has ", b.size(), " bytes");
        Ref<RGB> o(Sz{ w, h });
        for (std::size_t y = 0; y < h; ++y) for (std::size_t x = 0; x < w; ++x) for (int c = 0; c < 3; ++c) o(x, y).channels[c] = b[off + y * row + x * 3 + (2 - c)];
        return o;
    }
    // dbmp / hsv: 54-byte header with the size at 18/22, then rows of doubles, each row followed by (width mod 8) filler doubles
    inline Bytes raw_doubles(std::size_t w, std::size_t h, std::size_t ch, const std::function<double(std::size_t, std::size_t, std::size_t)>& get, std::function<double()> filler)
    {
        Bytes b(54, 0);
        b[0] = 'B'; b[1] = 'M'; b[10] = 54; b[14] = 40; b[26] = 1; b[28] = 24;
        for (int i = 0; i < 4; ++i) { b[18 + i] = (w >> (8 * i)) & 255; b[22 + i] = (h >> (8 * i)) & 255; }
        auto putd = [&](double d) { unsigned char t[8]; std::memcpy(t, &d, 8); b.insert(b.end(), t, t + 8); };
        for (std::size_t y = 0; y < h; ++y)
        {
            for (std::size_t x = 0; x < w; ++x) for (std::size_t k = 0; k < ch; ++k) putd(get(x, y, ch == 3 ? 2 - k : 0));
            for (std::size_t f = 0; f < w % 8; ++f) putd(filler());
        }
        return b;
    }
    inline double any_double(Rng& r)
    {
        switch (r.range(0, 9))
        {
        case 0: return 0.0; case 1: return -0.0; case 2: return std::numeric_limits<double>::denorm_min() * (double)r.range(1, 1000);
        case 3: return std::numeric_limits<double>::max(); case 4: return -std::numeric_limits<double>::min();
        case 5: return std::numeric_limits<double>::infinity() * (r.chance(0.5) ? 1 : -1);
        case 6: { std::uint64_t u = r.next(); double d; std::memcpy(&d, &u, 8); return std::isnan(d) ? 1.5 : d; }
        default: return r.real(-1e6, 1e6);
        }
    }
    inline bool bits_equal(double a, double b) { return std::memcmp(&a, &b, 8) == 0; }
}
#endif
