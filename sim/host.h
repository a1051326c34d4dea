// Small helpers for the C++ hosts: flat JSON workload parsing ({"ops":[{"k":1,...},...], "x":3}).
#pragma once
#include "sim.h"
#include <map>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
struct Op
{
    std::map<std::string, long long> i;
    std::map<std::string, std::string> s;
    long long get(const char * k, long long d = 0) const { auto f = i.find(k); return f == i.end() ? d : f->second; }
    std::string str(const char * k) const { auto f = s.find(k); return f == s.end() ? std::string() : f->second; }
};
inline const char * skipws(const char * p) { while (*p == ' ' || *p == '\n' || *p == ',' || *p == ':') p++; return p; }
inline const char * parse_obj(const char * p, Op & o, std::vector<Op> * ops)
{
    p = skipws(p);
    if (*p == '{') p++;
    while (true)
    {
        p = skipws(p);
        if (!*p || *p == '}') return *p ? p + 1 : p;
        const char * q = strchr(p + 1, '"');
        std::string key(p + 1, q);
        p = skipws(q + 1);
        if (*p == '"')
        {
            q = strchr(p + 1, '"');
            o.s[key] = std::string(p + 1, q);
            p = q + 1;
        }
        else if (*p == '[')
        {
            p = skipws(p + 1);
            while (*p && *p != ']')
            {
                Op c;
                p = skipws(parse_obj(p, c, nullptr));
                if (ops) ops->push_back(c);
            }
            if (*p) p++;
        }
        else
        {
            char * e;
            o.i[key] = strtoll(p, &e, 10);
            p = e;
        }
    }
}
inline std::vector<Op> parse_workload(Op & top)
{
    std::vector<Op> v;
    parse_obj(sim_workload(), top, &v);
    return v;
}
#define VIOLATE(cls, ...) do { char _b[400]; snprintf(_b, sizeof _b, __VA_ARGS__); sim_violate(cls, _b); } while (0)
