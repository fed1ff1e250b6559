#include "script.h"
#include <cstdio>
#include <cstdlib>
#include <sstream>
Script SC;
int script_main(int argc, char** argv, run_body body)
{
    FILE* in = fopen(argv[1], "r");
    FILE* out = fopen(argv[2], "w");
    if(!in || !out) return 2;
    char* line = 0;
    size_t cap = 0;
    while(getline(&line, &cap, in) > 0)
    {
        std::istringstream s(line);
        std::string k;
        s >> k;
        if(k == "P")
        {
            SC = Script();
            s >> SC.pid;
            std::string a;
            while(s >> a) SC.arg.push_back(a);
        }
        else if(k == "O")
        {
            size_t t;
            SOp o;
            s >> t >> o.op;
            long x;
            while(s >> x) o.a.push_back(x);
            if(SC.th.size() <= t) SC.th.resize(t + 1);
            SC.th[t].push_back(o);
        }
        else if(k == "S")
        {
            if(!budget_left()) break;
            std::string rest;
            std::getline(s, rest);
            long id;
            vs_config c = parse_cfg(rest.c_str(), &id);
            std::string hdr = "\"p\":" + std::to_string(SC.pid) + ",\"id\":" + std::to_string(id) + ",\"n\":" + std::to_string(SC.th.size()) + ",\"arg\":[";
            for(size_t i = 0; i < SC.arg.size(); ++i)
            {
                bool num = SC.arg[i].find_first_not_of("-0123456789") == std::string::npos;
                hdr += (i ? "," : "") + (num ? SC.arg[i] : "\"" + SC.arg[i] + "\"");
            }
            run_forked(c, body, 0, hdr + "]", out);
        }
    }
    fclose(out);
    return 0;
}
