// Stand-in for db-parser: reads {"keyword": [1, 2], ...}
#pragma once
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <list>
#include <sstream>
#include <stdexcept>
#include <string>
namespace dbparser {
class DBParserJSON
{
    std::string text_;
    std::function<void(const std::string&, const std::list<unsigned>&)> list_;
    std::function<void(const std::string&, unsigned)> pair_;

public:
    explicit DBParserJSON(const char* path)
    {
        std::ifstream in(path);
        if (!in) throw std::runtime_error("Unable to open the file");
        std::stringstream s;
        s << in.rdbuf();
        text_ = s.str();
    }
    template<class F> void addCallbackList(F f) { list_ = f; }
    template<class F> void addCallbackPair(F f) { pair_ = f; }
    void parse()
    {
        size_t i = 0;
        auto ws = [&] { while (i < text_.size() && strchr(" \t\r\n,", text_[i])) i++; };
        ws();
        if (i >= text_.size() || text_[i++] != '{') throw std::runtime_error("Error while parsing JSON");
        for (;;) {
            ws();
            if (i >= text_.size()) throw std::runtime_error("Error while parsing JSON");
            if (text_[i] == '}') return;
            if (text_[i++] != '"') throw std::runtime_error("Error while parsing JSON");
            size_t e = text_.find('"', i);
            if (e == std::string::npos) throw std::runtime_error("Error while parsing JSON");
            std::string kw = text_.substr(i, e - i);
            i = e + 1;
            while (i < text_.size() && strchr(" :", text_[i])) i++;
            if (i >= text_.size() || text_[i++] != '[') throw std::runtime_error("Error while parsing JSON");
            std::list<unsigned> l;
            for (;;) {
                ws();
                if (i >= text_.size()) throw std::runtime_error("Error while parsing JSON");
                if (text_[i] == ']') { i++; break; }
                char* end;
                l.push_back((unsigned)strtoul(&text_[i], &end, 10));
                if (end == &text_[i]) throw std::runtime_error("Error while parsing JSON");
                i = end - &text_[0];
            }
            if (list_) list_(kw, l);
            if (pair_) for (unsigned d : l) pair_(kw, d);
        }
    }
};
}
