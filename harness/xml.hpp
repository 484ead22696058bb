// Reading the description files of saved solutions.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <algorithm>

namespace vp
{
// a small reader of XML: enough for the description file
struct Xml
{
  std::string tag, text;
  std::map<std::string, std::string> attr;
  std::vector<Xml> sub;
  Xml const *first(std::string const &t) const { for (auto &s : sub) if (s.tag == t) return &s; return nullptr; }
  std::string at(std::string const &k) const { auto i = attr.find(k); return i == attr.end() ? "" : i->second; }
};
struct Parser
{
  std::string s; size_t i = 0; bool bad = false;
  void ws() { while (i < s.size() && std::isspace((unsigned char)s[i])) ++i; }
  std::string word() { size_t a = i; while (i < s.size() && (std::isalnum((unsigned char)s[i]) || s[i] == '_' || s[i] == ':' || s[i] == '-')) ++i; return s.substr(a, i - a); }
  bool eat(std::string const &t) { if (s.compare(i, t.size(), t)) return false; i += t.size(); return true; }
  void prolog() { for (;;) { ws(); if (eat("<?")) i = std::min(s.size(), s.find("?>", i)) + 2; else if (eat("<!")) i = std::min(s.size(), s.find(">", i)) + 1; else break; if (i > s.size()) { bad = true; return; } } }
  Xml element()
  {
    Xml x;
    if (!eat("<")) { bad = true; return x; }
    x.tag = word();
    for (;;)
    {
      ws();
      if (eat("/>")) return x;
      if (eat(">")) break;
      auto k = word(); ws();
      if (k.empty() || !eat("=")) { bad = true; return x; }
      ws();
      char q = i < s.size() ? s[i] : 0;
      if (q != '"' && q != '\'') { bad = true; return x; }
      size_t e = s.find(q, ++i);
      if (e == std::string::npos) { bad = true; return x; }
      x.attr[k] = s.substr(i, e - i); i = e + 1;
    }
    while (!bad)
    {
      size_t e = s.find('<', i);
      if (e == std::string::npos) { bad = true; break; }
      x.text += s.substr(i, e - i); i = e;
      if (eat("</")) { if (word() != x.tag) bad = true; ws(); if (!eat(">")) bad = true; break; }
      if (!s.compare(i, 2, "<!")) { prolog(); continue; }
      x.sub.push_back(element());
    }
    return x;
  }
};
inline std::vector<double> numbers(std::string s) { for (char &c : s) if (c == ',') c = ' '; std::istringstream in(s); std::vector<double> r; double x; while (in >> x) r.push_back(x); return r; }
inline std::string trim(std::string s) { while (!s.empty() && std::isspace((unsigned char)s.back())) s.pop_back(); size_t a = 0; while (a < s.size() && std::isspace((unsigned char)s[a])) ++a; return s.substr(a); }
}
