// Text inputs: XML documents (round trips, edits, hostile bytes), line files, and searches for XML files in directories.
// EXTRA_SOURCES: ms-utils/parsing/tinyxml/tinyxml.cpp ms-utils/parsing/tinyxml/tinyxmlparser.cpp ms-utils/parsing/tinyxml/tinystr.cpp ms-utils/parsing/ParseTool.cpp ms-utils/fileSearch/XmlFileSearch.cpp
#include "mon.hpp"
#include "parsing/tinyxml/tinyxml.hh"
#include "parsing/ParseTool.hh"
#define private public
#define protected public
#include "fileSearch/XmlFileSearch.hh"
#undef private
#undef protected
#include "software/exceptions/TsParseException.hh"
#include "software/exceptions/TsInitializationException.hh"
#include <unistd.h>
#include <sys/stat.h>
#include <set>
#include <algorithm>
namespace {
struct Scratch { std::string d; std::vector<std::string> f; Scratch() { char b[] = "/tmp/vparseXXXXXX"; d = mkdtemp(b); } ~Scratch() { for (size_t i = f.size(); i > 0; --i) { if (unlink(f[i - 1].c_str())) rmdir(f[i - 1].c_str()); } rmdir(d.c_str()); }
    std::string add(const std::string& n) { f.push_back(d + "/" + n); return f.back(); } std::string put(const std::string& n, const std::string& s) { const std::string p = add(n); FILE* o = fopen(p.c_str(), "wb"); if (o) { fwrite(s.data(), 1, s.size(), o); fclose(o); } return p; } };
// a model of a document
struct N { enum T { EL, TX, CD, CM, DE } t; std::string v; std::vector<std::pair<std::string, std::string> > a; std::vector<N> k; };
std::string name(mon::Ctx& c) { static const char* f = "abcXYZ_", *r = "abcXYZ019_.-:"; std::string s(1, f[c.r.i(0, 6)]); for (int i = c.r.i(0, 9); i > 0; --i) s += r[c.r.i(0, 12)]; if (s.size() >= 3 && (s[0] == 'x' || s[0] == 'X')) s[0] = 'q'; return s; }
std::string chars(mon::Ctx& c, bool attr, bool enc = false) { std::string s; const int n = c.r.p(0.05) ? c.r.i(50, 400) : c.r.i(1, 14); for (int i = 0; i < n; ++i) switch (c.r.i(0, 9)) { case 0: { static const char* e = "&<>\"'"; s += e[c.r.i(0, 4)]; break; } case 1: s += "\xC3\xA9"; break; case 2: s += "\xE2\x82\xAC"; break; case 3: if (!s.empty() && s.back() != ' ' && i + 1 < n) s += ' '; else s += 'm'; break; case 4: s += char(c.r.i(33, 126)); break; case 5: if (enc) { static const char k[] = "\n\n\t\r\x01\x1f"; s += k[c.r.i(0, 5)]; } else if (attr) s += c.r.p(0.5) ? '\n' : '\t'; else s += ';'; break; default: s += char(c.r.i('a', 'z')); }
    while (!s.empty() && s.back() == ' ') s.pop_back(); for (size_t p; (p = s.find("&#")) != std::string::npos;) s.erase(p + 1, 1); if (s.empty()) s = "z"; if (enc && s.find_first_not_of(" \n\t\r") == std::string::npos) s += 'z'; return s; }
std::string commentText(mon::Ctx& c) { std::string s = chars(c, false); for (size_t p; (p = s.find("--")) != std::string::npos;) s.erase(p, 1); if (s.back() == '-') s += 'x'; return s; }
std::string cdata(mon::Ctx& c) { std::string s = chars(c, true); if (c.r.p(0.3)) s = "  " + s + " \n "; for (size_t p; (p = s.find("]]")) != std::string::npos;) s.erase(p, 1); if (s.back() == ']') s += 'x'; return s; }
N element(mon::Ctx& c, int depth) { N e; e.t = N::EL; e.v = name(c); std::set<std::string> used; for (int i = c.r.i(0, 4); i > 0; --i) { std::string n = name(c); if (used.insert(n).second) e.a.emplace_back(n, c.r.p(0.1) ? "" : chars(c, true, true)); }
    const int nk = depth > 0 ? c.r.i(0, 4) : c.r.i(0, 1); for (int i = 0; i < nk; ++i) { const double u = c.r.u(); if (u < 0.5 && depth > 0) e.k.push_back(element(c, depth - 1)); else if (u < 0.75) { if (e.k.empty() || (e.k.back().t != N::TX && e.k.back().t != N::CD)) { N t; t.t = N::TX; t.v = chars(c, false, true); e.k.push_back(t); } } else if (u < 0.85) { if (e.k.empty() || e.k.back().t != N::TX) { N t; t.t = N::CD; t.v = cdata(c); e.k.push_back(t); } } else { N t; t.t = N::CM; t.v = commentText(c); e.k.push_back(t); } } return e; }
TiXmlNode* build(const N& n) { switch (n.t) { case N::EL: { TiXmlElement* e = new TiXmlElement(n.v); for (auto& a : n.a) e->SetAttribute(a.first, a.second); for (auto& k : n.k) e->LinkEndChild(build(k)); return e; } case N::TX: return new TiXmlText(n.v); case N::CD: { TiXmlText* t = new TiXmlText(n.v); t->SetCDATA(true); return t; } case N::CM: { TiXmlComment* m = new TiXmlComment(); m->SetValue(n.v); return m; } default: return new TiXmlDeclaration("1.0", "UTF-8", "yes"); } }
bool same(mon::Ctx& c, const N& n, const TiXmlNode* x, const std::string& w) {
    switch (n.t) {
        case N::EL: { const TiXmlElement* e = x->ToElement(); if (!CHK(e != 0, "xml-type", w + ": an element became something else")) return false; if (!CHK(n.v == e->Value(), "xml-name", w + ": element " + n.v + " became " + e->Value())) return false; const TiXmlAttribute* a = e->FirstAttribute(); for (auto& q : n.a) { if (!CHK(a && q.first == a->Name() && q.second == a->ValueStr(), "xml-attribute", w + ": attribute " + q.first + "=" + q.second + (a ? " became " + std::string(a->Name()) + "=" + a->Value() : " lost"))) return false; CHK(e->Attribute(q.first.c_str()) && q.second == e->Attribute(q.first.c_str()), "xml-attribute", "look up of " + q.first); a = a->Next(); } if (!CHK(!a, "xml-attribute", w + ": an extra attribute")) return false; break; }
        case N::TX: case N::CD: { const TiXmlText* t = x->ToText(); if (!CHK(t && n.v == t->ValueStr() && t->CDATA() == (n.t == N::CD), "xml-text", w + ": text [" + n.v + "] became [" + x->Value() + "]")) return false; break; }
        case N::CM: if (!CHK(x->ToComment() && n.v == x->Value(), "xml-comment", w + ": comment [" + n.v + "] became [" + x->Value() + "]")) return false; break;
        case N::DE: { const TiXmlDeclaration* d = x->ToDeclaration(); if (!CHK(d && std::string(d->Version()) == "1.0" && std::string(d->Encoding()) == "UTF-8" && std::string(d->Standalone()) == "yes", "xml-declaration", w + ": declaration changed")) return false; break; } }
    const TiXmlNode* k = x->FirstChild(); for (size_t i = 0; i < n.k.size(); ++i) { if (!CHK(k != 0, "xml-child", mon::fmt("%s: child %zu of %s lost", w.c_str(), i, n.v.c_str()))) return false; CHK(k->Parent() == x, "xml-link", w + ": parent link"); CHK(i + 1 == n.k.size() || (k->NextSibling() && k->NextSibling()->PreviousSibling() == k), "xml-link", w + ": sibling link"); if (!same(c, n.k[i], k, w)) return false; k = k->NextSibling(); } return CHK(!k, "xml-child", w + ": an extra child of " + n.v);
}
bool sameDoc(mon::Ctx& c, const std::vector<N>& m, const TiXmlDocument& d, const std::string& w) { const TiXmlNode* k = d.FirstChild(); for (auto& n : m) { if (!CHK(k != 0, "xml-child", w + ": a top node lost")) return false; if (!same(c, n, k, w)) return false; k = k->NextSibling(); } return CHK(!k, "xml-child", w + ": an extra top node"); }
std::vector<N> document(mon::Ctx& c) { std::vector<N> m; if (c.r.p(0.5)) { N d; d.t = N::DE; m.push_back(d); } if (c.r.p(0.3)) { N t; t.t = N::CM; t.v = commentText(c); m.push_back(t); } m.push_back(element(c, c.r.i(0, 4))); if (c.r.p(0.2)) { N t; t.t = N::CM; t.v = commentText(c); m.push_back(t); } return m; }
bool gtComment(const std::vector<N>& m) { for (auto& n : m) if ((n.t == N::CM && (n.v[0] == '>' || n.v.compare(0, 2, "->") == 0)) || gtComment(n.k)) return true; return false; }
std::string print(mon::Ctx& c, const TiXmlDocument& d, int how) { TiXmlPrinter p; if (how == 1) p.SetStreamPrinting(); if (how == 2) p.SetIndent("\t"); if (how == 3) { std::string s; s << d; return s; } if (how == 4) { std::ostringstream o; o << d; return o.str(); } d.Accept(&p); (void)c; return p.Str(); }
// a character data section behind text merges with it, and two in a row stay apart: avoid only the former
}
MON_PROP2(P01, xml, "random documents built, printed in every way, read back, copied and edited against a model; distinct = printed documents") {
    std::vector<N> m = document(c); TiXmlDocument d; for (auto& n : m) d.LinkEndChild(build(n)); if (!sameDoc(c, m, d, "built")) return;
    const int how = c.r.i(0, 4); const std::string s = print(c, d, how); c.note = mon::fmt("style %d: ", how) + s.substr(0, 300);
    if (c.r.p(0.8)) { TiXmlDocument e; e.Parse(s.c_str(), 0, c.r.p(0.3) ? TIXML_ENCODING_UTF8 : TIXML_DEFAULT_ENCODING); if (!CHK(!e.Error(), "xml-parse", std::string("own output refused: ") + e.ErrorDesc())) return; if (!sameDoc(c, m, e, "read back")) return; TiXmlDocument f(e); if (!sameDoc(c, m, f, "copied")) return; c.count("round_trips"); }
    else if (c.r.p(0.5)) { std::istringstream in(s); TiXmlDocument e; in >> e; if (gtComment(m) && !CHK(!e.Error(), "comment-gt-streamed", "refused from a stream")) return; if (CHK(!e.Error(), "xml-parse", "own output refused from a stream")) { const size_t last = m.back().t == N::EL ? m.size() : m.size() - 1; if (gtComment(m)) { TiXmlDocument g; for (size_t i = 0; i < last; ++i) g.LinkEndChild(build(m[i])); CHK(print(c, g, 0) == print(c, e, 0), "comment-gt-streamed", "a document with a comment that starts with > changed when streamed in"); return; } if (!sameDoc(c, std::vector<N>(m.begin(), m.begin() + long(last)), e, "streamed")) return; c.count("streams"); } }
    else { Scratch sc; const std::string p = sc.add("d.xml"); TiXmlDocument e(p.c_str()); bool w; if (c.r.p(0.5)) w = d.SaveFile(p.c_str()); else { std::string t; for (char q : s) { if (q == '\n' && c.r.p(0.5)) t += '\r'; t += q; } FILE* o = fopen(p.c_str(), "wb"); fwrite(t.data(), 1, t.size(), o); fclose(o); w = true; } CHK(w, "xml-file", "not saved"); if (CHK(e.LoadFile(), "xml-file", std::string("not loaded: ") + e.ErrorDesc())) { if (s.find("CDATA") == std::string::npos && !sameDoc(c, m, e, "from a file")) return; } c.count("files"); }
    c.hit(mon::hstr(s));
    // edits against the model
    TiXmlElement* r = d.RootElement(); N* mr = 0; for (auto& n : m) if (n.t == N::EL) { mr = &n; break; }
    for (int i = c.r.i(0, 8); i > 0; --i) { const size_t n = mr->k.size(), at = n ? size_t(c.r.i(0, int(n) - 1)) : 0; TiXmlNode* k = r->FirstChild(); for (size_t q = 0; q < at && k; ++q) k = k->NextSibling(); N e = element(c, 1);
        switch (c.r.i(0, 6)) { case 0: { TiXmlNode* b = build(e); r->InsertEndChild(*b); delete b; mr->k.push_back(e); break; } case 1: if (k) { TiXmlNode* b = build(e); r->InsertBeforeChild(k, *b); delete b; mr->k.insert(mr->k.begin() + long(at), e); } break; case 2: if (k) { TiXmlNode* b = build(e); r->InsertAfterChild(k, *b); delete b; mr->k.insert(mr->k.begin() + long(at) + 1, e); } break; case 3: if (k) { TiXmlNode* b = build(e); r->ReplaceChild(k, *b); delete b; mr->k[at] = e; } break; case 4: if (k) { CHK(r->RemoveChild(k), "xml-edit", "child not removed"); mr->k.erase(mr->k.begin() + long(at)); } break;
            case 5: { const std::string an = name(c), av = chars(c, true, true); r->SetAttribute(an, av); bool f = false; for (auto& a : mr->a) if (a.first == an) { a.second = av; f = true; } if (!f) mr->a.emplace_back(an, av); break; } case 6: if (!mr->a.empty()) { const size_t q = size_t(c.r.i(0, int(mr->a.size()) - 1)); r->RemoveAttribute(mr->a[q].first); mr->a.erase(mr->a.begin() + long(q)); } break; }
        if (!sameDoc(c, m, d, "edited")) return; c.count("edits"); }
    const double x = c.r.sgn() * c.r.logu(1e-20, 1e20); const int v = int(c.r.next()); r->SetDoubleAttribute("verif.d", x); r->SetAttribute("verif.i", v); double x2 = 0; int v2 = 0; CHK(r->QueryDoubleAttribute("verif.d", &x2) == TIXML_SUCCESS, "xml-number", "no double"); NEAR(x2, x, 1e-5, 0, "xml-number", "double attribute"); CHK(r->QueryIntAttribute("verif.i", &v2) == TIXML_SUCCESS && v2 == v, "xml-number", "integer attribute"); CHK(r->QueryIntAttribute("verif.none", &v2) == TIXML_NO_ATTRIBUTE, "xml-number", "missing attribute found"); r->SetAttribute("verif.t", "q1"); CHK(r->QueryDoubleAttribute("verif.t", &x2) == TIXML_WRONG_TYPE, "xml-number", "text read as a number");
}
MON_PROP2(P01, hostile, "mutated and truncated documents: no memory error or hang, refusals give a reason; distinct = accepted documents") {
    std::vector<N> m = document(c); TiXmlDocument d; for (auto& n : m) d.LinkEndChild(build(n)); std::string s = print(c, d, c.r.i(0, 2)); static const char* tok[] = {"<", ">", "</", "/>", "<!--", "-->", "<![CDATA[", "]]>", "<?xml", "?>", "<!", "&", "&#x41;", "&#", "&#99;", "&lt;", "&amp", "\"", "'", "=", " ", "\n", "\r", "\t", "\xEF\xBB\xBF", "\xEF\xBB", "\xEF", "\xEF\xBF\xBE", "\xF8", "encoding=\"UTF-8\"", "<?xml version='1.0'", "<a", "<?", "a=", "&#x;", "&#xFFFFFFFFF;"};
    for (int i = c.r.i(1, 6); i > 0; --i) { const size_t p = size_t(c.r.i(0, int(s.size()))); switch (c.r.i(0, 4)) { case 0: if (p < s.size()) s[p] = char(c.r.i(1, 255)); break; case 1: s.insert(p, tok[c.r.i(0, int(sizeof tok / sizeof tok[0]) - 1)]); break; case 2: s.erase(p, size_t(c.r.i(1, 6))); break; case 3: if (c.r.p(0.3)) s.erase(p); break; case 4: { const size_t q = size_t(c.r.i(0, int(s.size()))); s.insert(p, s.substr(q, size_t(c.r.i(1, 20)))); break; } } if (s.empty()) s = tok[c.r.i(0, 35)]; }
    c.note = "hostile: " + s.substr(0, 400); std::vector<char> exact(s.begin(), s.end()); exact.push_back(0); TiXmlDocument e; e.Parse(exact.data(), 0, TiXmlEncoding(c.r.i(0, 2))); c.count(e.Error() ? "refused" : "accepted"); CHK(!e.Error() || (e.ErrorId() > 0 && e.ErrorDesc() && *e.ErrorDesc()), "hostile-error", "refused without a reason");
    if (e.Error()) { e.ClearError(); (void)print(c, e, 0); return; }
    const std::string a = print(c, e, 1); TiXmlDocument f; f.Parse(a.c_str(), 0, TIXML_DEFAULT_ENCODING); if (f.Error()) { c.count("reprint_refused"); return; } c.hit(mon::hstr(a)); c.count("reprinted");
    if (c.r.p(0.2)) { Scratch sc; const std::string p = sc.put("h.xml", s); TiXmlDocument g; g.LoadFile(p.c_str(), TiXmlEncoding(c.r.i(0, 2))); std::istringstream in(s); TiXmlDocument h; in >> h; c.count("hostile_files"); }
}
namespace {
std::string trimmed(std::string s, const char* rm) { if (rm) { std::string t; for (char q : s) if (!strchr(rm, q)) t += q; s = t; } size_t a = 0, b = s.size(); while (a < b && isspace((unsigned char)s[a])) ++a; while (b > a && isspace((unsigned char)s[b - 1])) --b; return s.substr(a, b - a); }
}
MON_PROP2(P01, lines, "text files of random lines, comments, separators and lengths, and number conversions, against a model; distinct = files") {
    std::string text; std::vector<std::string> raw; const int n = c.r.i(0, 12), width = c.r.i(5, 60); const char* rm = c.r.p(0.5) ? 0 : c.r.p(0.5) ? "\"" : "[];"; const char* cm = c.r.p(0.4) ? 0 : c.r.p(0.5) ? "#" : "//"; size_t longest = 0;
    for (int i = 0; i < n; ++i) { std::string l; for (int q = c.r.p(0.1) ? width + c.r.i(-3, 5) : c.r.i(0, width / 2); q > 0; --q) { static const char* al = "ab1 \t#/,\"[];."; l += al[c.r.i(0, 12)]; } if (c.r.p(0.1)) l += '\r'; raw.push_back(l); longest = std::max(longest, l.size()); text += l; if (i + 1 < n || c.r.p(0.7)) text += '\n'; }
    Scratch sc; const std::string p = sc.put("l.txt", text); c.note = mon::fmt("width %d, remove %s, comments %s: ", width, rm ? rm : "-", cm ? cm : "-") + text; std::vector<std::string> want; for (auto& l : raw) { std::string t = trimmed(l, rm); if (cm) { const size_t q = t.find(cm); if (q != std::string::npos) t = t.substr(0, q); } if (!t.empty()) want.push_back(trimmed(t, 0)); }
    std::vector<std::string> got(1, "junk"); bool thrown = false; try { ParseTool::parseLines(got, p.c_str(), width, rm, cm); } catch (TsParseException&) { thrown = true; }
    if (longest + 1 > size_t(width)) { CHK(thrown, "line-long", "a line longer than the limit was accepted"); c.count("too_long"); } else { CHK(!thrown, "line-refused", "refused"); if (!thrown) { CHK(got == want, "lines", mon::fmt("%zu lines, expected %zu", got.size(), want.size())); c.hit(mon::hstr(text)); c.count("files"); } }
    thrown = false; try { ParseTool::parseLines(got, (p + "no").c_str()); } catch (TsParseException&) { thrown = true; } CHK(thrown, "line-missing", "a missing file was read"); thrown = false; try { ParseTool::validateFile(0); } catch (TsParseException&) { thrown = true; } CHK(thrown, "line-missing", "no file name accepted");
    // splitting
    const char sep = ",; ="[c.r.i(0, 3)]; std::string l = raw.empty() ? "" : raw[0]; for (int i = c.r.i(0, 4); i > 0; --i) l.insert(size_t(c.r.i(0, int(l.size()))), 1, sep); std::vector<std::string> v(1, "junk"), w(1); for (char q : l) if (q == sep) w.push_back(""); else w.back() += q; for (auto& q : w) q = trimmed(q, 0); ParseTool::splitLineByCharacter(v, l, sep); CHK(v == w, "split", "split of [" + l + "]");
    // numbers
    std::string num; switch (c.r.i(0, 5)) { case 0: num = mon::fmt("%.17g", c.r.sgn() * c.r.logu(1e-300, 1e300)); break; case 1: num = mon::fmt("%d", int(c.r.next())); break; case 2: num = mon::fmt("%gx", c.r.uni(-10, 10)); break; case 3: num = c.r.p(0.5) ? "1e999" : "-1e999"; break; case 4: num = "abc"; break; default: num = mon::fmt(" %.6e", c.r.uni(-1, 1)); }
    double x = strtod(num.c_str(), 0); if (std::isinf(x)) x = x > 0 ? DBL_MAX : -DBL_MAX; NEAR(ParseTool::convertToDouble(num, "VERIF", "here"), x, 0, 0, "number", "number from [" + num + "]"); c.count("numbers");
}
MON_PROP2(P01, search, "directories of random entries searched for XML files with limits; distinct = directory contents") {
    Scratch sc; std::set<std::string> want; std::string all; const int n = c.r.i(0, 8); for (int i = 0; i < n; ++i) { std::string b; for (int q = c.r.i(1, 6); q > 0; --q) b += "abX.-"[c.r.i(0, 4)]; if (b == "." || b == "..") b = "q"; const char* e[] = {".xml", ".xml", ".XML", ".txt", "", ".xml.bak", ".x.xml"}; b += mon::fmt("%d", i); b += e[c.r.i(0, 6)]; const int kind = c.r.i(0, 7); const std::string p = sc.add(b); if (kind == 0) mkdir(p.c_str(), 0700); else if (kind == 1) { if (symlink("none", p.c_str())) return; } else { FILE* o = fopen(p.c_str(), "wb"); if (!o) return; fclose(o); if (b[0] != '.' && b.size() > 4 && b.substr(b.size() - 4) == ".xml") want.insert(b); } all += b + mon::fmt("%d ", kind); }
    const int limit = c.r.i(-1, 9); c.note = mon::fmt("limit %d: ", limit) + all; const bool ok = limit > 0 && !want.empty() && int(want.size()) <= limit; XmlFileSearch s; bool thrown = false; try { s.searchDirectory(sc.d.c_str(), limit); } catch (TsInitializationException&) { thrown = true; } CHK(thrown == !ok, "search-verdict", mon::fmt("found %zu files of %zu, %s", s.fileList.size(), want.size(), thrown ? "refused" : "accepted")); if (ok && !thrown) { std::set<std::string> g(s.fileList.begin(), s.fileList.end()); CHK(g == want && s.fileList.size() == want.size(), "search-files", mon::fmt("%zu files found of %zu", s.fileList.size(), want.size())); c.count("found"); } c.hit(mon::hstr(all));
    thrown = false; XmlFileSearch t; try { t.searchDirectory((sc.d + "/none").c_str(), 5); } catch (TsInitializationException&) { thrown = true; } CHK(thrown, "search-verdict", "a missing directory was searched");
}
