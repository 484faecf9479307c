#ifndef VP_PAR_MAIN_HPP
#define VP_PAR_MAIN_HPP
#include <unistd.h>
namespace par
{
    std::vector<Op>& ops() { static std::vector<Op> v; return v; }
    // what the library prints to std::cout is of no interest here
    struct Null : std::streambuf { int overflow(int ch) override { return ch == traits_type::eof() ? 0 : ch; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
    struct Quiet { Null n; std::streambuf *o, *e; Quiet() : o(std::cout.rdbuf(&n)), e(std::cerr.rdbuf(&n)) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
    inline void compare(const Dig& want, const Dig& got, const std::string& name, const std::string& how)
    {
        require(want.v.size() == got.v.size(), "schedule/" + name, how, ": ", got.v.size(), " numbers instead of ", want.v.size());
        for (std::size_t i = 0; i < want.v.size(); ++i)
        {
            const double a = want.v[i], b = got.v[i];
            if (a == b || (std::isnan(a) && std::isnan(b))) continue;
            require(std::fabs(a - b) <= want.tol * (1 + std::max(std::fabs(a), std::fabs(b))), "schedule/" + name, how, ": number ", i, " is ", b, " instead of ", a);
        }
        event("numbers_compared", want.v.size());
    }
}
#endif
