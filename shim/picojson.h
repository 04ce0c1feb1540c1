// Stand-in for kazuho/picojson 1.3.1-dev (submodule not available offline).
#ifndef VSHIM_PICOJSON_H
#define VSHIM_PICOJSON_H
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cctype>
#include <iostream>
#include <iterator>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace picojson
{
  enum { null_type, boolean_type, number_type, string_type, array_type, object_type };
  struct null {};

  class value
  {
  public:
    typedef std::vector<value> array;
    typedef std::map<std::string, value> object;

    value () : type_(null_type) {}
    explicit value (bool b) : type_(boolean_type), b_(b) {}
    explicit value (double n) : type_(number_type), n_(n)
    { if (std::isnan(n) || std::isinf(n)) throw std::overflow_error(""); }
    explicit value (const std::string& s) : type_(string_type), s_(s) {}
    explicit value (const char* s) : type_(string_type), s_(s) {}
    explicit value (const array& a) : type_(array_type), a_(a) {}
    explicit value (const object& o) : type_(object_type), o_(o) {}

    template<typename T> bool is () const;
    template<typename T> const T& get () const;
    template<typename T> T& get ();
    template<typename T> void set (const T& v) { *this = value(v); }

    bool contains (const std::string& k) const
    { return type_ == object_type && o_.count(k); }
    const value& get (const std::string& k) const
    { static value nul; auto i = o_.find(k); return i == o_.end() ? nul : i->second; }

    std::string to_str () const
    {
      switch (type_)
      {
      case null_type: return "null";
      case boolean_type: return b_ ? "true" : "false";
      case number_type:
      {
        char buf[256]; double tmp;
        snprintf(buf, sizeof buf, fabs(n_) < (1ULL << 53) && modf(n_, &tmp) == 0 ? "%.f" : "%.17g", n_);
        return buf;
      }
      case string_type: return s_;
      case array_type: return "array";
      default: return "object";
      }
    }

    std::string serialize (bool prettify = false) const
    { std::string r; ser(r, prettify ? 0 : -1); if (prettify) r += "\n"; return r; }

    int type_;
    bool b_ = false;
    double n_ = 0;
    std::string s_;
    array a_;
    object o_;

  private:
    static void str (std::string& r, const std::string& s)
    {
      r += '"';
      for (unsigned char c : s)
        switch (c)
        {
        case '"': r += "\\\""; break;
        case '\\': r += "\\\\"; break;
        case '/': r += "\\/"; break;
        case '\b': r += "\\b"; break;
        case '\f': r += "\\f"; break;
        case '\n': r += "\\n"; break;
        case '\r': r += "\\r"; break;
        case '\t': r += "\\t"; break;
        default:
          if (c < 0x20 || c == 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
          else r += c;
        }
      r += '"';
    }
    static void ind (std::string& r, int n) { r += '\n'; r.append(n * 2, ' '); }
    void ser (std::string& r, int in) const
    {
      if (type_ == string_type) str(r, s_);
      else if (type_ == array_type)
      {
        r += '['; bool first = true; int n = in < 0 ? -1 : in + 1;
        for (auto& v : a_) { if (!first) r += ','; first = false; if (n >= 0) ind(r, n); v.ser(r, n); }
        if (in >= 0 && !a_.empty()) ind(r, in);
        r += ']';
      }
      else if (type_ == object_type)
      {
        r += '{'; bool first = true; int n = in < 0 ? -1 : in + 1;
        for (auto& p : o_)
        {
          if (!first) r += ','; first = false; if (n >= 0) ind(r, n);
          str(r, p.first); r += ':'; if (n >= 0) r += ' '; p.second.ser(r, n);
        }
        if (in >= 0 && !o_.empty()) ind(r, in);
        r += '}';
      }
      else r += to_str();
    }
  };
  typedef value::array array;
  typedef value::object object;

#define VSHIM_PJ(T, tag, mem)                                           \
  template<> inline bool value::is<T>() const { return type_ == tag; }  \
  template<> inline const T& value::get<T>() const                      \
  { if (type_ != tag) throw std::runtime_error("\"type mismatch! call is<type>() before get<type>()\" && is<" #T ">()"); return mem; } \
  template<> inline T& value::get<T>()                                  \
  { if (type_ != tag) throw std::runtime_error("\"type mismatch! call is<type>() before get<type>()\" && is<" #T ">()"); return mem; }
  VSHIM_PJ(bool, boolean_type, b_)
  VSHIM_PJ(double, number_type, n_)
  VSHIM_PJ(std::string, string_type, s_)
  VSHIM_PJ(array, array_type, a_)
  VSHIM_PJ(object, object_type, o_)
#undef VSHIM_PJ

  inline std::string& last_error () { static std::string s; return s; }
  inline const std::string& get_last_error () { return last_error(); }

  struct parser
  {
    const std::string& s; size_t p = 0;
    explicit parser (const std::string& t) : s(t) {}
    void ws () { while (p < s.size() && isspace((unsigned char)s[p])) ++p; }
    bool lit (const char* t) { size_t n = strlen(t); if (s.compare(p, n, t) == 0) { p += n; return true; } return false; }
    bool string_ (std::string& out)
    {
      if (p >= s.size() || s[p] != '"') return false;
      ++p;
      while (p < s.size())
      {
        unsigned char c = s[p++];
        if (c < ' ') return false;
        if (c == '"') return true;
        if (c == '\\')
        {
          if (p >= s.size()) return false;
          switch (s[p++])
          {
          case '"': out += '"'; break; case '\\': out += '\\'; break; case '/': out += '/'; break;
          case 'b': out += '\b'; break; case 'f': out += '\f'; break; case 'n': out += '\n'; break;
          case 'r': out += '\r'; break; case 't': out += '\t'; break;
          case 'u':
          {
            if (p + 4 > s.size()) return false;
            unsigned u = strtoul(s.substr(p, 4).c_str(), nullptr, 16); p += 4;
            if (u < 0x80) out += (char)u;
            else if (u < 0x800) { out += (char)(0xc0 | (u >> 6)); out += (char)(0x80 | (u & 0x3f)); }
            else { out += (char)(0xe0 | (u >> 12)); out += (char)(0x80 | ((u >> 6) & 0x3f)); out += (char)(0x80 | (u & 0x3f)); }
            break;
          }
          default: return false;
          }
        }
        else out += c;
      }
      return false;
    }
    bool val (value& v, int depth = 0)
    {
      if (depth > 100) return false;
      ws();
      if (p >= s.size()) return false;
      if (lit("null")) { v = value(); return true; }
      if (lit("true")) { v = value(true); return true; }
      if (lit("false")) { v = value(false); return true; }
      char c = s[p];
      if (c == '"') { std::string t; if (!string_(t)) return false; v = value(t); return true; }
      if (c == '[')
      {
        ++p; array a; ws();
        if (p < s.size() && s[p] == ']') { ++p; v = value(a); return true; }
        for (;;)
        {
          a.emplace_back(); if (!val(a.back(), depth + 1)) return false;
          ws(); if (p >= s.size()) return false;
          if (s[p] == ',') { ++p; continue; }
          if (s[p] == ']') { ++p; v = value(a); return true; }
          return false;
        }
      }
      if (c == '{')
      {
        ++p; object o; ws();
        if (p < s.size() && s[p] == '}') { ++p; v = value(o); return true; }
        for (;;)
        {
          ws(); std::string k; if (!string_(k)) return false;
          ws(); if (p >= s.size() || s[p] != ':') return false; ++p;
          value t; if (!val(t, depth + 1)) return false;
          o[k] = t;
          ws(); if (p >= s.size()) return false;
          if (s[p] == ',') { ++p; continue; }
          if (s[p] == '}') { ++p; v = value(o); return true; }
          return false;
        }
      }
      if (c == '-' || isdigit((unsigned char)c))
      {
        char* e; std::string num;
        while (p < s.size() && (isdigit((unsigned char)s[p]) || strchr("+-.eE", s[p]))) num += s[p++];
        double d = strtod(num.c_str(), &e);
        if (*e) return false;
        v = value(d); return true;
      }
      return false;
    }
  };

  inline std::istream& operator>> (std::istream& is, value& v)
  {
    std::string t((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
    last_error().clear();
    parser p(t);
    if (!p.val(v))
    {
      size_t line = 1; for (size_t i = 0; i < p.p && i < t.size(); ++i) line += t[i] == '\n';
      last_error() = "syntax error at line " + std::to_string(line) + " near: " + t.substr(std::min(p.p, t.size()), 40);
      is.setstate(std::ios::failbit);
    }
    return is;
  }
}
#endif
