#pragma once
// What a workspace holds, by its public members where it has them, else by its own listing.
#include <any>
#include <map>
#include <sstream>
#include <string>
namespace vp
{
    template<class W> std::map<std::string, std::any> contents(const W& w)
    {
        std::map<std::string, std::any> o;
        if constexpr (requires { o.insert(w.memory_store.begin(), w.memory_store.end()); }) o.insert(w.memory_store.begin(), w.memory_store.end());
        else
        {
            std::ostringstream os; w.list_variables(os);
            std::istringstream is(os.str());
            for (std::string l; std::getline(is, l);)
            {
                const auto b = l.find('$'), e = l.find(" : [");
                if (b == std::string::npos || e == std::string::npos || b > e) continue;
                std::string n = l.substr(b + 1, e - b - 1);
                while (!n.empty() && n.back() == ' ') n.pop_back();
                if (auto a = w.retrieve_any(n)) o[n] = *a;
            }
        }
        return o;
    }
}
