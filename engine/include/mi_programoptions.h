// stand-in for the option parser library (not installed here), for the harness of the fimex program: options given as --key=value
#pragma once
#include <map>
#include <ostream>
#include <stdexcept>
#include <string>
#include <vector>
namespace miutil {
namespace program_options {
typedef std::vector<std::string> string_v;
struct option_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct option
{
    std::string key_, help_, default_, implicit_;
    bool hasDefault = false, hasImplicit = false, composing = false;
    int narg = 1;
    option(const std::string& k, const std::string& h) : key_(k), help_(h) {}
    option& set_shortkey(const std::string&) { return *this; }
    option& set_narg(int n) { narg = n; return *this; }
    option& set_composing() { composing = true; return *this; }
    option& set_implicit_value(const std::string& v) { implicit_ = v; hasImplicit = true; return *this; }
    option& set_default_value(const std::string& v) { default_ = v; hasDefault = true; return *this; }
    const std::string& key() const { return key_; }
};
typedef const option* option_cx;
struct value_set
{
    std::map<option_cx, string_v> v;
    option_cx find(const std::string& key) const
    {
        for (auto& o : v)
            if (o.first->key_ == key)
                return o.first;
        return nullptr;
    }
    bool is_set(option_cx o) const { return v.count(o); }
    bool is_set(const option& o) const { return is_set(&o); }
    const string_v& values(option_cx o) const
    {
        auto it = v.find(o);
        if (it == v.end())
            throw option_error("not set: " + (o ? o->key_ : std::string()));
        return it->second;
    }
    const string_v& values(const option& o) const { return values(&o); }
    const std::string& value(option_cx o) const
    {
        auto it = v.find(o);
        if (it == v.end() && o && o->hasDefault)
            return o->default_;
        return values(o).back();
    }
    const std::string& value(const option& o) const { return value(&o); }
    void add(const value_set& x)
    {
        for (auto& o : x.v)
            if (!v.count(o.first))
                v[o.first] = o.second;
            else if (o.first->composing)
                v[o.first].insert(v[o.first].end(), o.second.begin(), o.second.end());
    }
    void put(const option& o, const std::string& x)
    {
        if (!o.composing)
            v[&o].clear();
        v[&o].push_back(x);
    }
};
struct option_set
{
    std::vector<option_cx> o;
    option_set& operator<<(const option& x) { o.push_back(&x); return *this; }
    void help(std::ostream&) const {}
    void dump(std::ostream&, const value_set&) const {}
    void put(value_set& vm, const std::string& arg) const
    {
        const size_t e = arg.find('=');
        const std::string key = arg.substr(0, e);
        for (option_cx x : o)
            if (x->key_ == key) {
                if (x->narg == 0 || e == std::string::npos) {
                    if (x->narg != 0 && !x->hasImplicit)
                        throw option_error("no value for " + key);
                    vm.put(*x, x->narg == 0 ? std::string() : x->implicit_);
                } else
                    vm.put(*x, arg.substr(e + 1));
                return;
            }
        throw option_error("unknown option " + key);
    }
};
inline value_set parse_command_line(int argc, char* args[], const option_set& o, string_v& positional)
{
    value_set vm;
    for (int i = 1; i < argc; i++) {
        const std::string a = args[i];
        if (a.compare(0, 2, "--") == 0)
            o.put(vm, a.substr(2));
        else
            positional.push_back(a);
    }
    return vm;
}
inline std::map<std::string, string_v>& config_files()
{
    static std::map<std::string, string_v> f;
    return f;
}
inline value_set parse_config_file(const std::string& name, const option_set& o)
{
    if (!config_files().count(name))
        throw option_error("no file " + name);
    value_set vm;
    for (auto& a : config_files()[name])
        o.put(vm, a);
    return vm;
}
struct positional_args_consumer
{
    value_set& vm;
    const string_v& p;
    size_t i = 0;
    positional_args_consumer(value_set& v, const string_v& x) : vm(v), p(x) {}
    positional_args_consumer& operator>>(const option& o)
    {
        if (i < p.size() && !vm.is_set(o))
            vm.put(o, p[i++]);
        return *this;
    }
    bool done() const { return i >= p.size(); }
    void dump(std::ostream&) const {}
};
} // namespace program_options
} // namespace miutil
