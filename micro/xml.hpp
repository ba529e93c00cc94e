// A strict little XML reader for judging written files.
#pragma once
#include <map>
#include <memory>
#include <string>
#include <vector>
struct Xml {
    std::string name, text;
    std::map<std::string, std::string> attr;
    std::vector<Xml> kids;
    const Xml* kid(const std::string& n, size_t i = 0) const { for (auto& k : kids) if (k.name == n && i-- == 0) return &k; return nullptr; }
    size_t count(const std::string& n) const { size_t c = 0; for (auto& k : kids) c += k.name == n; return c; }
    std::string a(const std::string& n) const { auto i = attr.find(n); return i == attr.end() ? "" : i->second; }
};
struct XmlReader {
    const std::string& s; size_t i = 0; std::string err;
    explicit XmlReader(const std::string& t) : s(t) {}
    bool bad(const std::string& m) { if (err.empty()) err = m + " at byte " + std::to_string(i); return false; }
    bool at(const char* t) const { return s.compare(i, strlen(t), t) == 0; }
    void ws() { while (i < s.size() && strchr(" \t\r\n", s[i])) i++; }
    static bool nc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '-' || c == '.' || c == ':' || (c & 0x80); }
    std::string nm() { size_t j = i; while (i < s.size() && nc(s[i])) i++; return s.substr(j, i - j); }
    bool ent(std::string& o) {
        static const char* e[] = {"&amp;", "&lt;", "&gt;", "&quot;", "&apos;"};
        static const char v[] = "&<>\"'";
        for (int k = 0; k < 5; k++) if (at(e[k])) { o += v[k]; i += strlen(e[k]); return true; }
        if (at("&#")) { size_t j = s.find(';', i); if (j == std::string::npos) return bad("entity"); o += (char)strtol(s.substr(i + 2, j - i - 2).c_str(), nullptr, 10); i = j + 1; return true; }
        return bad("stray &");
    }
    bool misc() {  // white space, comments, processing instructions, doctype
        for (;;) {
            ws();
            if (at("<!--")) { size_t j = s.find("-->", i); if (j == std::string::npos) return bad("comment"); i = j + 3; }
            else if (at("<?")) { size_t j = s.find("?>", i); if (j == std::string::npos) return bad("declaration"); i = j + 2; }
            else if (at("<!DOCTYPE")) { int d = 0; while (i < s.size() && !(s[i] == '>' && d == 0)) { d += s[i] == '['; d -= s[i] == ']'; i++; } if (i >= s.size()) return bad("doctype"); i++; }
            else return true;
        }
    }
    bool elem(Xml& x) {
        if (!at("<")) return bad("element expected");
        i++;
        x.name = nm();
        if (x.name.empty()) return bad("element name");
        for (;;) {
            ws();
            if (at("/>")) { i += 2; return true; }
            if (at(">")) { i++; break; }
            std::string k = nm();
            if (k.empty() || !at("=")) return bad("attribute");
            i++;
            if (!at("\"") && !at("'")) return bad("attribute quote");
            char q = s[i++];
            std::string v;
            while (i < s.size() && s[i] != q) {
                if (s[i] == '<') return bad("< in attribute");
                if (s[i] == '&') { if (!ent(v)) return false; } else v += s[i++];
            }
            if (i >= s.size()) return bad("attribute end");
            i++;
            if (!x.attr.emplace(k, v).second) return bad("repeated attribute");
        }
        for (;;) {
            if (i >= s.size()) return bad("element " + x.name + " not closed");
            if (at("<!--")) { if (!misc()) return false; continue; }
            if (at("</")) {
                i += 2;
                if (nm() != x.name) return bad("closing tag of " + x.name);
                ws();
                if (!at(">")) return bad("closing tag");
                i++;
                return true;
            }
            if (at("<")) { x.kids.emplace_back(); if (!elem(x.kids.back())) return false; continue; }
            if (s[i] == '&') { if (!ent(x.text)) return false; } else x.text += s[i++];
        }
    }
    bool doc(Xml& x) {
        if (!misc() || !elem(x) || !misc()) return false;
        return i == s.size() || bad("text after the document");
    }
};
inline std::string trim(const std::string& s) {
    size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n");
    return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
inline std::vector<std::string> toks(const std::string& s) {
    std::vector<std::string> v; std::string c;
    for (char ch : s + " ") if (strchr(" \t\r\n", ch)) { if (!c.empty()) v.push_back(c); c.clear(); } else c += ch;
    return v;
}
