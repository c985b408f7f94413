// Minimal JSON writer.
#pragma once
#include <cmath>
#include <cstdio>
#include <string>
#include <vector>
struct J
{
  std::string s;
  std::vector<char> st;
  std::vector<bool> first;
  bool afterKey = false;
  void sep ()
  {
    if (afterKey)
      {
        afterKey = false;
        return;
      }
    if (!first.empty ())
      {
        if (!first.back ())
          s += ',';
        first.back () = false;
      }
  }
  J &item () { return *this; }
  J &obj ()
  {
    sep ();
    s += '{';
    st.push_back ('}');
    first.push_back (true);
    return *this;
  }
  J &arr ()
  {
    sep ();
    s += '[';
    st.push_back (']');
    first.push_back (true);
    return *this;
  }
  J &end ()
  {
    s += st.back ();
    st.pop_back ();
    first.pop_back ();
    return *this;
  }
  J &key (const char *k)
  {
    sep ();
    s += '"';
    s += k;
    s += "\":";
    afterKey = true;
    return *this;
  }
  J &num (long v)
  {
    if (v > 2147483647L) // TLC integers are 32 bit
      v = 2147483647L;
    if (v < -2147483647L)
      v = -2147483647L;
    sep ();
    s += std::to_string (v);
    return *this;
  }
  J &fix (double v, double scale)
  {
    if (std::isnan (v))
      return num (-2147483646L);
    double x = v * scale;
    if (x > 2147483646.)
      return num (2147483647L);
    if (x < -2147483646.)
      return num (-2147483647L);
    return num (lround (x));
  }
  J &raw (const std::string &r)
  {
    sep ();
    s += r;
    return *this;
  }
  J &str (const std::string &v)
  {
    sep ();
    s += '"';
    for (char c : v)
      {
        if (c == '"' || c == '\\')
          {
            s += '\\';
            s += c;
          }
        else if ((unsigned char) c < 32)
          s += ' ';
        else
          s += c;
      }
    s += '"';
    return *this;
  }
  void line (FILE *f)
  {
    s += '\n';
    fputs (s.c_str (), f);
  }
};
