// Text of every data member of a report, following ownership, padding and
// addresses excluded.  Members are found by the compiler, so renamed, added or
// moved members need no change here.
#pragma once
#include <string.h>

#include <array>
#include <map>
#include <memory>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <vector>

namespace sim {

struct Deep {
  std::string out;
  int depth = 0;

  template <class T>
  struct is_vec : std::false_type {};
  template <class T, class A>
  struct is_vec<std::vector<T, A>> : std::true_type {};
  template <class T, size_t N>
  struct is_vec<std::array<T, N>> : std::true_type {};
  template <class T>
  struct is_own : std::false_type {};
  template <class T, class D>
  struct is_own<std::unique_ptr<T, D>> : std::true_type {};
  template <class T>
  struct is_own<std::shared_ptr<T>> : std::true_type {};
  template <class T>
  struct is_map : std::false_type {};
  template <class K, class V, class C, class A>
  struct is_map<std::map<K, V, C, A>> : std::true_type {};

  template <class T>
  struct is_umap : std::false_type {};
  template <class K, class V, class C, class E, class A>
  struct is_umap<std::unordered_map<K, V, C, E, A>> : std::true_type {};

  template <class T>
  void value(const T& v) {
    if constexpr (std::is_same_v<T, bool>) {
      out += v ? "1 " : "0 ";
    } else if constexpr (std::is_floating_point_v<T>) {
      char b[64];
      snprintf(b, sizeof b, "%.17g ", (double)v);
      out += b;
    } else if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T>) {
      out += std::to_string((long long)v);
      out += ' ';
    } else if constexpr (std::is_array_v<T>) {
      out += '[';
      for (auto& e : v) value(e);
      out += ']';
    } else if constexpr (is_vec<T>::value) {
      out += '[';
      for (const auto& e : v) value(e);
      out += ']';
    } else if constexpr (is_own<T>::value) {
      if (v)
        value(*v);
      else
        out += "null ";
    } else if constexpr (is_map<T>::value) {
      out += '{';
      for (auto& e : v) {
        value(e.first);
        out += "=>";
        value(e.second);
      }
      out += '}';
    } else if constexpr (is_umap<T>::value) {
      std::map<typename T::key_type, const typename T::mapped_type*> m;  // in order
      for (auto& e : v) m[e.first] = &e.second;
      out += '{';
      for (auto& e : m) {
        value(e.first);
        out += "=>";
        value(*e.second);
      }
      out += '}';
    } else if constexpr (std::is_same_v<T, std::string>) {
      out += v + ' ';
    } else if constexpr (std::is_class_v<T>) {
      record(v);
    } else {
      out += "? ";
    }
  }

  // __builtin_dump_struct calls this with a format and the member's type text,
  // name and value (or address, for members that are not scalar).
  struct Sink {
    Deep* d;
    void take() {}
    template <class T>
    void one(const T& v) {
      if constexpr (std::is_pointer_v<T>) {
        using P = std::remove_cv_t<std::remove_pointer_t<T>>;
        if constexpr (std::is_same_v<P, char>) {
          // names and types: part of the text
          d->out += v ? v : "null";
          d->out += ' ';
        } else if constexpr (std::is_class_v<P> || std::is_array_v<P>) {
          if (d->member)
            d->value(*v);
          else
            d->out += v ? "ptr " : "null ";
        } else {
          d->out += v ? "ptr " : "null ";
        }
      } else {
        d->value(v);
      }
    }
    template <class... A>
    int operator()(const char* f, A... a) {
      // "*%p": the address of a non-scalar member; "%p": a pointer member
      bool was = d->member;
      d->member = strstr(f, "*%p") != nullptr;
      (one(a), ...);
      d->member = was;
      return 0;
    }
  };
  bool member = false;

  template <class T>
  void record(const T& v) {
    if (++depth > 40) {
      out += "deep ";
    } else {
      out += '(';
      bool was = member;
      Sink s{this};
      __builtin_dump_struct(&v, s);
      member = was;
      out += ')';
    }
    depth--;
  }
};

template <class T>
std::string deep_text(const T& v) {
  Deep d;
  d.value(v);
  return d.out;
}

}  // namespace sim
