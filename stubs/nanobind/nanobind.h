// Stand-in for nanobind: names and shapes only, so that the wrappers type-check offline.
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>
namespace nanobind {
enum class rv_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal, none };
struct handle
{
  handle();
  handle(std::nullptr_t);
};
struct object : handle
{
};
struct str : object
{
};
struct tuple : object
{
};
struct list : object
{
};
struct dict : object
{
};
struct capsule : object
{
  template<typename... A> capsule(A &&...) {}
};
object none();
template<typename... T> tuple make_tuple(T &&...) { return {}; }
template<rv_policy P = rv_policy::automatic, typename T> object cast(T &&, rv_policy = rv_policy::automatic_reference);
struct arg
{
  explicit constexpr arg(const char *name = nullptr);
  template<typename T> arg operator=(T &&) const;
  arg &noconvert(bool = true);
  arg &none(bool = true);
};
inline namespace literals {
  constexpr arg operator""_a(const char *name, std::size_t);
}
template<typename... T> struct init
{
};
struct is_operator
{
};
template<std::size_t, std::size_t> struct keep_alive
{
};
template<typename... T> struct call_guard
{
};
struct gil_scoped_release
{
};
struct attr_proxy
{
  template<typename T> attr_proxy &operator=(T &&);
};
struct module_ : object
{
  template<typename F, typename... X> module_ &def(const char *name, F &&f, const X &...) { return *this; }
  attr_proxy doc();
  attr_proxy attr(const char *);
  module_ def_submodule(const char *, const char * = nullptr);
};
template<typename T, typename... B> struct class_ : object
{
  template<typename... X> class_(module_ &, const char *name, const X &...);
  template<typename F, typename... X> class_ &def(const char *name, F &&f, const X &...) { return *this; }
  template<typename... A, typename... X> class_ &def(init<A...>, const X &...) { return *this; }
  template<typename F, typename... X> class_ &def_static(const char *name, F &&f, const X &...) { return *this; }
  template<typename F, typename... X> class_ &def_prop_ro(const char *name, F &&f, const X &...) { return *this; }
  template<typename F, typename G, typename... X> class_ &def_prop_rw(const char *name, F &&f, G &&g, const X &...) { return *this; }
  template<typename F, typename... X> class_ &def_ro(const char *name, F f, const X &...) { return *this; }
  template<typename F, typename... X> class_ &def_rw(const char *name, F f, const X &...) { return *this; }
};
template<typename T> struct enum_ : object
{
  template<typename... X> enum_(module_ &, const char *name, const X &...);
  enum_ &value(const char *, T, const char * = nullptr);
  enum_ &export_values();
};
void set_leak_warnings(bool);
}// namespace nanobind
#define NB_MODULE(name, var) void nb_module_init_##name(::nanobind::module_ &var)
