// Minimal stand-in for jamolnng/argparse (not installed here), enough for /repo's slicer front end.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <iostream>
#include <initializer_list>
namespace argparse {
class ArgumentParser {
public:
    class Argument {
    public:
        Argument& names(std::vector<std::string> n) { names_ = std::move(n); return *this; }
        Argument& name(std::string n) { names_.push_back(std::move(n)); return *this; }
        Argument& description(std::string d) { desc_ = std::move(d); return *this; }
        Argument& required(bool r) { required_ = r; return *this; }
        enum Count { ANY = -1 }; enum Position { LAST = -1, DONT_CARE = -2 };
        Argument& count(int) { return *this; }
        Argument& position(int) { return *this; }
        std::vector<std::string> names_; std::string desc_; bool required_ = false;
        bool found_ = false; std::vector<std::string> values_;
    };
    class Result {
    public:
        Result() = default; explicit Result(std::string w) : err_(true), what_(std::move(w)) {}
        operator bool() const { return err_; }
        friend std::ostream& operator<<(std::ostream& os, const Result& r) { return os << r.what_; }
    private: bool err_ = false; std::string what_;
    };
    ArgumentParser(std::string = "", std::string = "") {}
    Argument& add_argument() { args_.push_back(new Argument); return *args_.back(); }
    Argument& add_argument(const std::string& n, const std::string& l, const std::string& d, bool r = false) { return add_argument().names({n, l}).description(d).required(r); }
    Argument& add_argument(const std::string& n, const std::string& d, bool r = false) { return add_argument().name(n).description(d).required(r); }
    void enable_help() { add_argument().names({"-h", "--help"}).description("help"); }
    void print_help(size_t = 0, size_t = 0) {}
    Result parse(int argc, const char* argv[]) {
        Argument* cur = nullptr;
        for (int i = 1; i < argc; i++) {
            std::string a = argv[i];
            if (a.size() > 1 && a[0] == '-' && !(a[1] >= '0' && a[1] <= '9')) {
                cur = find(strip(a));
                if (!cur) return Result("Invalid argument: " + a);
                cur->found_ = true;
            } else if (cur) cur->values_.push_back(a);
            else if (!a.empty()) return Result("Unexpected argument: " + a);
        }
        return Result();
    }
    bool exists(const std::string& n) { auto* a = find(n); return a && a->found_; }
    template<class T> T get(const std::string& n) {
        T t{}; auto* a = find(n); if (!a || a->values_.empty()) return t;
        std::istringstream in(a->values_[0]); in >> t; return t;
    }
private:
    static std::string strip(std::string s) { size_t i = 0; while (i < s.size() && s[i] == '-') i++; return s.substr(i); }
    Argument* find(const std::string& n) {
        for (auto* a : args_) for (auto& x : a->names_) if (strip(x) == n) return a;
        return nullptr;
    }
    std::vector<Argument*> args_;
};
}
