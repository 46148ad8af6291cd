// stand-in for pika::program_options: options are declared with their type; a map holds typed values
#pragma once
#include <cstdlib>
#include <map>
#include <memory>
#include <stdexcept>
#include <ostream>
#include <string>
#include <vector>
#include "vf.h"
namespace pika::program_options {
template <class T> inline char type_tag = 0;
struct value_semantic { const void* type; bool flag; bool bare = false; };  // bare: an option without a value, absent unless given
template <class T> struct typed_value : value_semantic { typed_value* default_value(const T&) { return this; } };
template <class T> typed_value<T>* value() { return new typed_value<T>{{&type_tag<T>, false}}; }
inline typed_value<bool>* bool_switch() { return new typed_value<bool>{{&type_tag<bool>, true}}; }
class options_description {
public:
  struct Opt { std::string name; value_semantic* sem; };
  std::vector<Opt> opts;
  explicit options_description(const std::string& = "") {}
  struct adder {
    options_description* d;
    adder& operator()(const char* n, value_semantic* s, const char* = "") { d->opts.push_back({n, s}); return *this; }
    adder& operator()(const char* n, const char* = "") { auto* s = bool_switch(); s->bare = true; d->opts.push_back({n, s}); return *this; }
  };
  adder add_options() { return adder{this}; }
  options_description& add(const options_description& o) { for (auto& x : o.opts) opts.push_back(x); return *this; }
  const value_semantic* find(const std::string& n) const { for (auto& o : opts) if (o.name == n) return o.sem; return nullptr; }
};
inline std::ostream& operator<<(std::ostream& o, const options_description&) { return o; }
class variable_value {
public:
  std::shared_ptr<void> p;
  const void* type = nullptr;
  template <class T> const T& as() const {
    vf_check(type == &type_tag<T>, "option read with the type it was declared with");
    return *static_cast<T*>(p.get());
  }
  bool empty() const { return !p; }
};
class variables_map {
public:
  std::vector<std::pair<std::string, variable_value>> m;
  template <class T> void set(const std::string& n, T v) {
    variable_value x;
    x.p = std::make_shared<T>(std::move(v));
    x.type = &type_tag<T>;
    m.push_back({n, x});
  }
  std::size_t count(const std::string& n) const { for (auto& x : m) if (x.first == n) return 1; return 0; }
  const variable_value& operator[](const std::string& n) const { for (auto& x : m) if (x.first == n) return x.second; static variable_value e; return e; }
};
struct parsed { const options_description* d; std::vector<std::pair<std::string, std::string>> v; };
inline parsed parse_command_line(int argc, const char* const* argv, const options_description& d) {
  parsed p{&d, {}};
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a.compare(0, 2, "--")) continue;
    auto eq = a.find('=');
    if (eq == std::string::npos) p.v.push_back({a.substr(2), ""});
    else p.v.push_back({a.substr(2, eq - 2), a.substr(eq + 1)});
  }
  return p;
}
inline void store(const parsed& p, variables_map& vm) {
  for (auto& o : p.d->opts)
    if (o.sem->flag) {
      bool on = false;
      for (auto& x : p.v) if (x.first == o.name) on = true;
      if (on || !o.sem->bare) vm.set<bool>(o.name, on);
    }
  for (auto& x : p.v) {
    auto* s = p.d->find(x.first);
    if (!s) throw std::runtime_error("unrecognised option");
    if (s->flag) continue;
    if (s->type == &type_tag<std::size_t>) vm.set<std::size_t>(x.first, std::strtoull(x.second.c_str(), nullptr, 10));
    else if (s->type == &type_tag<std::ptrdiff_t>) vm.set<std::ptrdiff_t>(x.first, std::strtoll(x.second.c_str(), nullptr, 10));
    else if (s->type == &type_tag<double>) vm.set<double>(x.first, std::strtod(x.second.c_str(), nullptr));
    else if (s->type == &type_tag<std::string>) vm.set<std::string>(x.first, x.second);
    else throw std::runtime_error("type");
  }
}
inline void notify(variables_map&) {}
}
