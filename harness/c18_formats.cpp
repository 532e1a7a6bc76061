/* C18: dot, LaTeX and MathML outputs are well-formed and state the recorded function. */
#include "cgen.hpp"
#include <cppad/cg/lang/latex/latex.hpp>
#include <cppad/cg/lang/mathml/mathml.hpp>
#include <cppad/cg/lang/dot/dot.hpp>
using namespace vf;
typedef CG<double> CGD;
typedef std::map<std::string, std::string> Texts;

struct Bad : public std::runtime_error { using std::runtime_error::runtime_error; };

static bool applyFn(const std::string& f, double a, double& r) {
    if (f == "abs") r = std::fabs(a);
    else if (f == "arccos" || f == "acos") r = std::acos(a);
    else if (f == "arcsin" || f == "asin") r = std::asin(a);
    else if (f == "arctan" || f == "atan") r = std::atan(a);
    else if (f == "cosh") r = std::cosh(a);
    else if (f == "cos") r = std::cos(a);
    else if (f == "exp") r = std::exp(a);
    else if (f == "ln" || f == "log") r = std::log(a);
    else if (f == "sinh") r = std::sinh(a);
    else if (f == "sgn" || f == "sign") r = a > 0 ? 1 : a < 0 ? -1 : 0;
    else if (f == "sin") r = std::sin(a);
    else if (f == "sqrt") r = std::sqrt(a);
    else if (f == "tanh") r = std::tanh(a);
    else if (f == "tan") r = std::tan(a);
    else if (f == "erf") r = std::erf(a);
    else if (f == "erfc") r = std::erfc(a);
    else if (f == "arcsinh" || f == "asinh") r = std::asinh(a);
    else if (f == "arccosh" || f == "acosh") r = std::acosh(a);
    else if (f == "arctanh" || f == "atanh") r = std::atanh(a);
    else if (f == "expm1") r = std::expm1(a);
    else if (f == "log1p") r = std::log1p(a);
    else return false;
    return true;
}

/** values of the variables while the statements of a document are executed */
struct Vars {
    std::map<std::string, double> v;
    double get(const std::string& n) const {
        auto it = v.find(n);
        if (it == v.end()) throw Bad("a variable is used before it is defined; case: variable " + n);
        return it->second;
    }
};

static bool compare(const std::string& rel, double a, double b) {
    if (rel == "<") return a < b;
    if (rel == "<=") return a <= b;
    if (rel == "==") return a == b;
    if (rel == ">=") return a >= b;
    if (rel == ">") return a > b;
    if (rel == "!=") return a != b;
    throw Bad("unknown comparison; case: '" + rel + "'");
}

// ---- LaTeX -------------------------------------------------------------------
struct Tok { std::string k, s; double v = 0; }; // kinds: cmd, num, chr, var, begin, end

struct LatexMarks {
    std::array<std::string, 2> dep{{"\\begin{CGDepVar}", "\\end{CGDepVar}"}}, indep{{"\\begin{CGIndVar}", "\\end{CGIndVar}"}}, var{{"\\begin{CGVar}", "\\end{CGVar}"}};
};

static std::vector<Tok> latexTokens(const std::string& s, const LatexMarks& mk) {
    std::vector<Tok> r;
    size_t i = 0;
    auto starts = [&](const std::string& t) { return s.compare(i, t.size(), t) == 0; };
    while (i < s.size()) {
        bool isVar = false;
        for (const auto* m : {&mk.dep, &mk.indep, &mk.var}) {
            if (starts((*m)[0])) {
                size_t e = s.find((*m)[1], i);
                if (e == std::string::npos) throw Bad("the name of a variable is not closed");
                size_t b = i + (*m)[0].size();
                Tok t; t.k = "var"; t.s = s.substr(b, e - b);
                if (t.s.empty()) throw Bad("a variable without name");
                r.push_back(t);
                i = e + (*m)[1].size();
                isVar = true;
                break;
            }
        }
        if (isVar) continue;
        char ch = s[i];
        if (ch == '%') { while (i < s.size() && s[i] != '\n') ++i; continue; }
        if (isspace((unsigned char) ch)) { ++i; continue; }
        if (starts("\\begin{") || starts("\\end{")) {
            Tok t; t.k = s[i + 1] == 'b' ? "begin" : "end";
            size_t b = s.find('{', i) + 1, e = s.find('}', i);
            if (e == std::string::npos) throw Bad("incomplete environment");
            t.s = s.substr(b, e - b);
            r.push_back(t);
            i = e + 1;
            continue;
        }
        if (ch == '\\') {
            size_t j = i + 1;
            while (j < s.size() && isalpha((unsigned char) s[j])) ++j;
            if (j == i + 1) ++j;
            Tok t; t.k = "cmd"; t.s = s.substr(i + 1, j - i - 1);
            r.push_back(t);
            i = j;
            continue;
        }
        if (isdigit((unsigned char) ch) || (ch == '.' && i + 1 < s.size() && isdigit((unsigned char) s[i + 1]))) {
            size_t j = i;
            while (j < s.size() && (isdigit((unsigned char) s[j]) || s[j] == '.')) ++j;
            Tok t; t.k = "num"; t.s = s.substr(i, j - i); t.v = std::strtod(t.s.c_str(), nullptr);
            if (std::count(t.s.begin(), t.s.end(), '.') > 1) throw Bad("invalid number; case: " + t.s);
            r.push_back(t);
            i = j;
            continue;
        }
        Tok t; t.k = "chr"; t.s = std::string(1, ch);
        r.push_back(t);
        ++i;
    }
    return r;
}

class Latex {
    std::vector<Tok> t_;
    size_t p_ = 0;
    Vars& vars_;
    bool live_ = true;
public:
    Latex(std::vector<Tok> t, Vars& v) : t_(std::move(t)), vars_(v) {}
    void document() {
        expect("begin", "CGAlgFile");
        block("CGAlgFile");
        if (p_ != t_.size()) throw Bad("text after the end of the algorithm; case: " + near());
    }
private:
    std::string near() const {
        std::string s;
        for (size_t i = p_ > 6 ? p_ - 6 : 0; i < std::min(p_ + 6, t_.size()); ++i) s += (i == p_ ? ">>" : "") + t_[i].s + " ";
        return s;
    }
    bool is(const char* k, const char* s) const { return p_ < t_.size() && t_[p_].k == k && (s == nullptr || t_[p_].s == s); }
    bool eat(const char* k, const char* s) { if (!is(k, s)) return false; ++p_; return true; }
    void expect(const char* k, const char* s) {
        if (!eat(k, s)) throw Bad(std::string("the LaTeX source is not well-formed; case: ") + k + " " + s + " is missing at " + near());
    }
    /** statements until the end of the environment */
    void block(const char* env) {
        for (;;) {
            if (eat("end", env)) return;
            if (eat("begin", "CGEqBlock")) { block("CGEqBlock"); continue; }
            if (eat("begin", "CGLine")) {
                expect("begin", "CGEq");
                if (!is("var", nullptr)) throw Bad("an assignment without variable; case: " + near());
                std::string name = t_[p_++].s;
                expect("chr", "=");
                double v = expr();
                if (live_) vars_.v[name] = v;
                expect("end", "CGEq");
                expect("end", "CGLine");
                continue;
            }
            if (eat("begin", "CGIf")) { conditional(); continue; }
            throw Bad("the LaTeX source is not well-formed; case: unexpected text at " + near());
        }
    }
    bool condition() {
        expect("begin", "CGCond");
        double a = expr();
        std::string rel;
        if (p_ < t_.size()) {
            const Tok& t = t_[p_++];
            if (t.k == "chr") { rel = t.s; if (rel == "=") { rel = "=="; if (is("chr", "=")) ++p_; } }
            else if (t.k == "cmd") rel = t.s == "le" || t.s == "leq" ? "<=" : t.s == "ge" || t.s == "geq" ? ">=" : t.s == "ne" || t.s == "neq" ? "!=" : t.s == "equiv" ? "==" : t.s;
        }
        double b = expr();
        expect("end", "CGCond");
        return compare(rel, a, b);
    }
    void conditional() {
        bool outer = live_, done = false;
        bool c = condition();
        live_ = outer && c;
        done = c;
        block("CGIf");
        for (;;) {
            if (eat("begin", "CGElseIf")) {
                live_ = outer && !done;
                bool c2 = condition();
                live_ = outer && !done && c2;
                done = done || c2;
                block("CGElseIf");
            } else if (eat("begin", "CGElse")) {
                live_ = outer && !done;
                block("CGElse");
                break;
            } else break;
        }
        live_ = outer;
    }
    double expr() {
        double a = signedTerm();
        for (;;) {
            if (eat("chr", "+")) a += signedTerm();
            else if (eat("chr", "-")) a -= signedTerm();
            else return a;
        }
    }
    double signedTerm() {
        if (eat("chr", "-")) return -signedTerm();
        if (eat("chr", "+")) return signedTerm();
        return term();
    }
    bool startsFactor() const {
        if (p_ >= t_.size()) return false;
        const Tok& t = t_[p_];
        if (t.k == "num" || t.k == "var") return true;
        if (t.k == "chr") return t.s == "{";
        if (t.k == "cmd") {
            double q;
            return t.s == "frac" || t.s == "left" || t.s == "operatorname" || t.s == "mathopen" || applyFn(t.s, 0.5, q);
        }
        return false;
    }
    double term() {
        double a = factor();
        for (;;) {
            bool explicitOp = eat("cmd", "times") || eat("cmd", "cdot");
            if (explicitOp) { a *= factor(); continue; }
            if (!startsFactor()) return a;
            // two numbers next to each other read as another number
            if (t_[p_ - 1].k == "num" && t_[p_].k == "num") throw Bad("two numbers next to each other; case: " + near());
            a *= factor();
        }
    }
    double factor() {
        double a = base();
        while (eat("chr", "^")) {
            double e;
            if (is("chr", "{")) e = group();
            else e = base();
            a = std::pow(a, e);
        }
        return a;
    }
    double group() {
        expect("chr", "{");
        double a = expr();
        expect("chr", "}");
        return a;
    }
    double parens() {
        expect("cmd", "left");
        expect("chr", "(");
        double a = expr();
        expect("cmd", "right");
        expect("chr", ")");
        return a;
    }
    double funArg() {
        expect("cmd", "mathopen"); expect("chr", "{"); expect("chr", "}");
        double a = parens();
        expect("cmd", "mathclose"); expect("chr", "{"); expect("chr", "}");
        return a;
    }
    double base() {
        if (p_ >= t_.size()) throw Bad("the LaTeX source ends inside a formula");
        const Tok& t = t_[p_];
        if (t.k == "num") { ++p_; return t.v; }
        if (t.k == "var") { ++p_; return live_ ? vars_.get(t.s) : 1.0; }
        if (t.k == "chr" && t.s == "{") return group();
        if (t.k == "cmd") {
            if (t.s == "left") return parens();
            if (t.s == "frac") { ++p_; double a = group(); double b = group(); return a / b; }
            double r;
            if (t.s == "abs" || t.s == "sqrt") { std::string f = t.s; ++p_; double a = group(); applyFn(f, a, r); return r; }
            std::string f = t.s;
            if (f == "operatorname") {
                ++p_;
                expect("chr", "{");
                f.clear();
                while (p_ < t_.size() && !is("chr", "}")) f += t_[p_++].s;
                expect("chr", "}");
            } else ++p_;
            double a = funArg();
            if (!applyFn(f, a, r)) throw Bad("unknown function; case: " + f);
            return r;
        }
        throw Bad("the LaTeX source is not well-formed; case: a formula is expected at " + near());
    }
};

/** master file with its \input files */
static std::string latexExpand(const Texts& files, const std::string& master) {
    std::string s = files.at(master), r;
    size_t i = 0;
    for (;;) {
        size_t j = s.find("\\input{", i);
        if (j == std::string::npos) { r += s.substr(i); return r; }
        r += s.substr(i, j - i);
        size_t e = s.find('}', j);
        std::string f = s.substr(j + 7, e - j - 7);
        auto it = files.find(f + ".tex");
        if (it == files.end()) throw Bad("a file that is used does not exist; case: " + f);
        r += it->second;
        i = e + 1;
    }
}

// ---- MathML ------------------------------------------------------------------
struct El {
    std::string tag, text; // text nodes have an empty tag
    std::map<std::string, std::string> at;
    std::vector<El> ch;
    std::string all() const { std::string s = text; for (auto& c : ch) s += c.all(); return s; }
    std::string markup() const {
        if (tag.empty()) return text;
        std::string s = "<" + tag + ">";
        for (auto& c : ch) s += c.markup();
        return s + "</" + tag + ">";
    }
    std::string inner() const { std::string s; for (auto& c : ch) s += c.markup(); return s; }
};

class Xml {
    const std::string& s_;
    size_t i_ = 0;
    std::set<std::string> ids_;
public:
    explicit Xml(const std::string& s) : s_(s) {}
    El parse() {
        El root;
        root.tag = "#";
        content(root);
        if (i_ < s_.size()) throw Bad("a closing tag without opening tag; case: " + s_.substr(i_, 40));
        return root;
    }
    const std::set<std::string>& ids() const { return ids_; }
private:
    void content(El& p) {
        while (i_ < s_.size()) {
            if (s_[i_] != '<') {
                size_t j = s_.find('<', i_);
                if (j == std::string::npos) j = s_.size();
                std::string raw = s_.substr(i_, j - i_);
                i_ = j;
                std::string t;
                for (size_t k = 0; k < raw.size(); ++k) {
                    if (raw[k] == '>') throw Bad("an unescaped '>' in the text");
                    if (raw[k] == '&') {
                        size_t e = raw.find(';', k);
                        if (e == std::string::npos || e == k + 1) throw Bad("an invalid entity; case: " + raw);
                        for (size_t q = k + 1; q < e; ++q) if (!isalnum((unsigned char) raw[q]) && raw[q] != '#') throw Bad("an invalid entity; case: " + raw);
                    }
                    t += raw[k];
                }
                bool space = std::all_of(t.begin(), t.end(), [](char q) { return isspace((unsigned char) q); });
                if (!space) { El e; e.text = t; p.ch.push_back(e); }
                continue;
            }
            if (s_.compare(i_, 4, "<!--") == 0) {
                size_t e = s_.find("-->", i_);
                if (e == std::string::npos) throw Bad("an open comment");
                i_ = e + 3;
                continue;
            }
            if (s_.compare(i_, 2, "<!") == 0) { i_ = s_.find('>', i_) + 1; continue; }
            if (s_.compare(i_, 2, "</") == 0) return;
            element(p);
        }
    }
    void element(El& p) {
        size_t e = s_.find('>', i_);
        if (e == std::string::npos) throw Bad("an incomplete tag");
        std::string t = s_.substr(i_ + 1, e - i_ - 1);
        bool closed = !t.empty() && t.back() == '/';
        if (closed) t.pop_back();
        i_ = e + 1;
        El el;
        size_t k = 0;
        while (k < t.size() && !isspace((unsigned char) t[k])) el.tag += t[k++];
        for (char q : el.tag) if (!isalnum((unsigned char) q)) throw Bad("an invalid tag; case: " + t);
        while (k < t.size()) {
            while (k < t.size() && isspace((unsigned char) t[k])) ++k;
            if (k >= t.size()) break;
            size_t q = t.find('=', k);
            if (q == std::string::npos || q + 1 >= t.size() || (t[q + 1] != '\'' && t[q + 1] != '"')) throw Bad("an invalid attribute; case: " + t);
            size_t z = t.find(t[q + 1], q + 2);
            if (z == std::string::npos) throw Bad("an invalid attribute; case: " + t);
            el.at[t.substr(k, q - k)] = t.substr(q + 2, z - q - 2);
            k = z + 1;
        }
        if (el.at.count("id")) {
            if (!ids_.insert(el.at["id"]).second) throw Bad("an identifier is used twice; case: id " + el.at["id"]);
        }
        if (!closed && el.tag != "meta") {
            if (el.tag == "style" || el.tag == "script") {
                std::string c = "</" + el.tag + ">";
                size_t z = s_.find(c, i_);
                if (z == std::string::npos) throw Bad("an open element; case: " + el.tag);
                El tx; tx.text = s_.substr(i_, z - i_);
                el.ch.push_back(tx);
                i_ = z + c.size();
            } else {
                content(el);
                std::string c = "</" + el.tag + ">";
                if (s_.compare(i_, c.size(), c) != 0) throw Bad("elements are not closed in order; case: " + c + " expected at " + s_.substr(i_, 30));
                i_ += c.size();
            }
        }
        p.ch.push_back(el);
    }
};

class MathML {
    Vars& vars_;
    bool live_ = true;
public:
    explicit MathML(Vars& v) : vars_(v) {}
    static const El* find(const El& e, const std::string& tag, const std::string& at = "", const std::string& val = "") {
        for (auto& c : e.ch) {
            if (c.tag == tag && (at.empty() || (c.at.count(at) && c.at.at(at) == val))) return &c;
            const El* r = find(c, tag, at, val);
            if (r) return r;
        }
        return nullptr;
    }
    void statements(const El& p) {
        bool done = true; // of the last conditional
        for (const El& e : p.ch) {
            std::string cls = e.at.count("class") ? e.at.at("class") : "";
            if (e.tag == "script") continue; // information for viewers
            if (e.tag == "math") assign(e);
            else if (e.tag == "div" && (cls == "condIf" || cls == "condElse" || cls == "condElseIf")) {
                const El* m = nullptr; const El* body = nullptr;
                for (auto& c : e.ch) {
                    if (c.tag == "math") m = &c;
                    else if (c.tag == "div" && c.at.count("class") && c.at.at("class") == "condBody") body = &c;
                    else throw Bad("unexpected element in a condition; case: " + c.tag);
                }
                if (!m || !body) throw Bad("an incomplete conditional block");
                bool outer = live_;
                bool c = true;
                if (cls != "condElse") {
                    if (m->ch.size() != 2 || m->ch[1].tag != "mfenced") throw Bad("an invalid condition; case: " + m->inner());
                    live_ = outer && (cls == "condIf" || !done);
                    c = condition(m->ch[1]);
                } else if (m->all() != "else") throw Bad("else is missing");
                if (cls == "condIf") { live_ = outer && c; done = c; }
                else { live_ = outer && !done && c; done = done || c; }
                statements(*body);
                live_ = outer;
            } else throw Bad("an unexpected element; case: " + e.tag + " " + cls);
        }
    }
private:
    static bool isVar(const El& e) {
        if (e.tag != "mrow" || !e.at.count("class")) return false;
        const std::string& c = e.at.at("class");
        return c == "dep" || c == "indep" || c == "tmp";
    }
    void assign(const El& m) {
        const std::vector<El>& c = m.ch;
        if (c.size() < 3 || !isVar(c[0]) || c[1].tag != "mo" || c[1].all() != "=") throw Bad("an invalid assignment; case: " + m.inner());
        size_t p = 2;
        double v = expr(c, p);
        if (p != c.size()) throw Bad("an invalid formula; case: " + m.inner());
        if (live_) vars_.v[c[0].inner()] = v;
    }
    bool condition(const El& f) {
        if (f.ch.size() != 1 || f.ch[0].tag != "mrow") throw Bad("an invalid condition; case: " + f.inner());
        const std::vector<El>& c = f.ch[0].ch;
        size_t p = 0;
        double a = expr(c, p);
        if (p >= c.size() || c[p].tag != "mo") throw Bad("an invalid condition; case: " + f.inner());
        std::string r = c[p++].all();
        r = r == "&lt;" ? "<" : r == "&gt;" ? ">" : r == "&le;" ? "<=" : r == "&ge;" ? ">=" : r == "&ne;" || r == "&NotEqual;" ? "!=" : r;
        double b = expr(c, p);
        if (p != c.size()) throw Bad("an invalid condition; case: " + f.inner());
        return compare(r, a, b);
    }
    static bool op(const std::vector<El>& c, size_t p, const char* s) { return p < c.size() && c[p].tag == "mo" && c[p].all() == s; }
    double expr(const std::vector<El>& c, size_t& p) {
        double a = signedTerm(c, p);
        for (;;) {
            if (op(c, p, "+")) a += signedTerm(c, ++p);
            else if (op(c, p, "-")) a -= signedTerm(c, ++p);
            else return a;
        }
    }
    double signedTerm(const std::vector<El>& c, size_t& p) {
        if (op(c, p, "-")) return -signedTerm(c, ++p);
        return term(c, p);
    }
    double term(const std::vector<El>& c, size_t& p) {
        double a = factor(c, p);
        for (;;) {
            if (op(c, p, "&it;") || op(c, p, "&InvisibleTimes;")) {
                if (p > 0 && p + 1 < c.size() && c[p - 1].tag == "mn" && c[p + 1].tag == "mn") throw Bad("two numbers next to each other");
                a *= factor(c, ++p);
            } else if (op(c, p, "&times;") || op(c, p, "&middot;")) a *= factor(c, ++p);
            else return a;
        }
    }
    double whole(const El& e) {
        if (e.tag == "mn") return number(e);
        if (e.tag == "mrow" && !isVar(e)) {
            size_t p = 0;
            double v = expr(e.ch, p);
            if (p != e.ch.size()) throw Bad("an invalid formula; case: " + e.inner());
            return v;
        }
        std::vector<El> one{e};
        size_t p = 0;
        double v = factor(one, p);
        if (p != 1) throw Bad("an invalid formula; case: " + e.inner());
        return v;
    }
    double number(const El& e) {
        std::string t = e.all();
        char* end;
        double v = std::strtod(t.c_str(), &end);
        if (t.empty() || *end != 0) throw Bad("an invalid number; case: " + t);
        return v;
    }
    double factor(const std::vector<El>& c, size_t& p) {
        if (p >= c.size()) throw Bad("a formula ends too early");
        const El& e = c[p];
        ++p;
        if (isVar(e)) return live_ ? vars_.get(e.inner()) : 1.0;
        if (e.tag == "mn") return number(e);
        if (e.tag == "mfenced") {
            if (e.ch.size() != 1) throw Bad("invalid parentheses; case: " + e.inner());
            return whole(e.ch[0]);
        }
        if (e.tag == "mfrac") {
            if (e.ch.size() != 2) throw Bad("an invalid fraction; case: " + e.inner());
            double a = whole(e.ch[0]), b = whole(e.ch[1]);
            return a / b;
        }
        if (e.tag == "msup") {
            if (e.ch.size() != 2) throw Bad("an invalid power; case: " + e.inner());
            double a = whole(e.ch[0]), b = whole(e.ch[1]);
            return std::pow(a, b);
        }
        if (e.tag == "msqrt") {
            if (e.ch.size() != 1) throw Bad("an invalid square root; case: " + e.inner());
            return std::sqrt(whole(e.ch[0]));
        }
        if (e.tag == "mi") {
            if (!op(c, p, "&ApplyFunction;") || p + 1 >= c.size() || c[p + 1].tag != "mfenced") throw Bad("a function without argument; case: " + e.inner());
            double a = whole(c[p + 1].ch.at(0));
            p += 2;
            double r;
            if (!applyFn(e.all(), a, r)) throw Bad("unknown function; case: " + e.all());
            return r;
        }
        throw Bad("an unexpected element in a formula; case: " + e.markup());
    }
};

// ---- dot ---------------------------------------------------------------------
struct DotNode {
    std::string label;
    bool hasLabel = false;
    std::string shape;
    std::vector<std::pair<std::string, std::string>> in; // from, label
};

static std::map<std::string, DotNode> dotParse(const std::string& s) {
    std::map<std::string, DotNode> r;
    size_t i = 0;
    auto ws = [&] {
        for (;;) {
            while (i < s.size() && (isspace((unsigned char) s[i]) || s[i] == ';')) ++i;
            if (s.compare(i, 2, "//") == 0) { while (i < s.size() && s[i] != '\n') ++i; continue; }
            return;
        }
    };
    auto ident = [&]() -> std::string {
        ws();
        if (i < s.size() && s[i] == '"') {
            std::string t;
            ++i;
            while (i < s.size() && s[i] != '"') { if (s[i] == '\\') ++i; t += s[i++]; }
            if (i >= s.size()) throw Bad("an open string");
            ++i;
            return "\"" + t;
        }
        std::string t;
        while (i < s.size() && (isalnum((unsigned char) s[i]) || s[i] == '_')) t += s[i++];
        if (t.empty()) throw Bad("the dot source is not well-formed; case: a name is expected at " + s.substr(i, 30));
        return t;
    };
    auto attrs = [&] {
        std::map<std::string, std::string> a;
        ws();
        if (i < s.size() && s[i] == '[') {
            ++i;
            for (;;) {
                ws();
                if (i < s.size() && s[i] == ']') { ++i; break; }
                std::string k = ident();
                ws();
                if (i >= s.size() || s[i] != '=') throw Bad("an invalid attribute in dot");
                ++i;
                std::string v = ident();
                a[k] = v[0] == '"' ? v.substr(1) : v;
                ws();
                if (i < s.size() && s[i] == ',') ++i;
            }
        }
        return a;
    };
    std::function<void()> stmts = [&] {
        for (;;) {
            ws();
            if (i >= s.size()) throw Bad("the graph is not closed");
            if (s[i] == '}') { ++i; return; }
            std::string a = ident();
            if (a == "subgraph") {
                ident(); ws();
                if (i >= s.size() || s[i] != '{') throw Bad("an invalid subgraph");
                ++i;
                stmts();
                continue;
            }
            ws();
            if (s.compare(i, 2, "->") == 0) {
                i += 2;
                std::string b = ident();
                auto at = attrs();
                r[b].in.push_back({a, at.count("label") ? at["label"] : ""});
                r[a];
                continue;
            }
            if (i < s.size() && s[i] == '=') { ++i; ident(); continue; }
            auto at = attrs();
            if (a == "node" || a == "edge" || a == "graph") continue;
            DotNode& n = r[a];
            if (at.count("label")) {
                if (n.hasLabel) throw Bad("a node is declared twice; case: " + a);
                n.hasLabel = true; n.label = at["label"];
            }
            if (at.count("shape")) n.shape = at["shape"];
        }
    };
    if (ident() != "digraph") throw Bad("not a directed graph");
    ws();
    if (i >= s.size() || s[i] != '{') throw Bad("not a directed graph");
    ++i;
    stmts();
    ws();
    if (i < s.size()) throw Bad("text after the end of the graph");
    return r;
}

class Dot {
    const std::map<std::string, DotNode>& g_;
    const std::map<std::string, double>& x_; // by label
    std::map<std::string, double> memo_;
    std::set<std::string> active_;
public:
    Dot(const std::map<std::string, DotNode>& g, const std::map<std::string, double>& x) : g_(g), x_(x) {}
    double dep(const std::string& node) {
        auto it = g_.find(node);
        if (it == g_.end()) throw Bad("a dependent is missing");
        std::set<std::string> src;
        for (auto& e : it->second.in) src.insert(e.first);
        if (src.size() != 1) throw Bad("a dependent with " + std::to_string(src.size()) + " values");
        return value(*src.begin());
    }
    double value(const std::string& n) {
        auto m = memo_.find(n);
        if (m != memo_.end()) return m->second;
        if (!active_.insert(n).second) throw Bad("a node depends on itself");
        double v = compute(n);
        active_.erase(n);
        memo_[n] = v;
        return v;
    }
private:
    static double number(const std::string& t) {
        char* end;
        double v = std::strtod(t.c_str(), &end);
        if (t.empty() || *end != 0) throw Bad("an operation without arguments; case: '" + t + "'");
        return v;
    }
    double compute(const std::string& n) {
        const DotNode& d = g_.at(n);
        std::string label = d.hasLabel ? d.label : n[0] == '"' ? n.substr(1) : "";
        if (d.in.empty()) {
            auto it = x_.find(label);
            if (d.hasLabel && it != x_.end()) return it->second;
            return number(label);
        }
        std::vector<double> a;
        std::map<std::string, double> byLabel;
        for (auto& e : d.in) {
            double v = value(e.first);
            a.push_back(v);
            if (!e.second.empty() && !byLabel.insert({e.second, v}).second) throw Bad("an argument is given twice");
        }
        auto need = [&](size_t k) { if (a.size() != k) throw Bad("a wrong number of arguments of a node; case: '" + label + "' has " + std::to_string(a.size())); };
        auto L = [&](const char* s) {
            auto it = byLabel.find(s);
            if (it == byLabel.end()) throw Bad("an argument without label; case: '" + label + "'");
            return it->second;
        };
        if (label == "+") { need(2); return a[0] + a[1]; }
        if (label == "\xc3\x97" || label == "$1 * $2") { need(2); return a[0] * a[1]; }
        if (label == "$1 - $2") { need(2); return L("$1") - L("$2"); }
        if (label == "$1 / $2") { need(2); return L("$1") / L("$2"); }
        if (label == "pow($1, $2)") { need(2); return std::pow(L("$1"), L("$2")); }
        if (label == "-($1)") { need(1); return -a[0]; }
        if (label == "alias($1)") { need(1); return a[0]; }
        std::string pre = "result = ($1 ", post = " $2)? $3 : $4";
        if (label.compare(0, pre.size(), pre) == 0 && label.size() > pre.size() + post.size() && label.substr(label.size() - post.size()) == post) {
            need(4);
            return compare(label.substr(pre.size(), label.size() - pre.size() - post.size()), L("left"), L("right")) ? L("true") : L("false");
        }
        need(1);
        double r;
        if (!applyFn(label, a[0], r)) throw Bad("unknown operation in dot; case: '" + label + "'");
        return r;
    }
};

// ---- the cases -----------------------------------------------------------------
struct Common {
    prog::Gened gp;
    std::vector<CGD> x, y;
    std::string opts;
    double uc = 1e-15;
    size_t prec = 0;
    bool ignoreZero = false;
    std::vector<std::string> dn, in;
    std::vector<bool> alias;
};

static Common record(pbt::Case& c, CodeHandler<double>& h) {
    pbt::Gen& g = c.g;
    Common r;
    prog::Opts o;
    o.insMax = 30;
    r.gp = prog::gen(g, o);
    const prog::Prog& p = r.gp.p;
    r.x.resize(p.n);
    h.makeVariables(r.x);
    r.y = prog::eval<CGD>(p, r.x);
    // some dependents are aliases of other values
    for (auto& q : r.y) {
        bool al = g.chance(8) && q.getOperationNode() != nullptr;
        if (al) { q = CGD(*h.makeNode(CGOpCode::Alias, Argument<double>(*q.getOperationNode()))); c.label("alias"); }
    }
    bool reuse = !g.chance(35);
    h.setReuseVariableIDs(reuse);
    r.prec = g.chance(60) ? 17 : g.pick(std::vector<size_t>{0, 6, 9, 12});
    r.uc = r.prec ? std::pow(10.0, 1.0 - (double) r.prec) : 1e-14;
    r.ignoreZero = g.chance(20);
    r.opts = " with reuse=" + std::to_string(reuse) + " precision=" + std::to_string(r.prec) + " ignoreZero=" + std::to_string(r.ignoreZero);
    return r;
}

static void verify(pbt::Case& c, const Common& r, const std::string& text, const std::function<std::vector<double>(const std::vector<double>&)>& read) {
    const prog::Prog& p = r.gp.p;
    std::vector<char> same = prog::sameEverywhere(p, r.gp.x);
    for (size_t k = 0; k < prog::NPTS; ++k) {
        std::vector<double> ref = prog::eval<double>(p, r.gp.x[k]);
        std::vector<double> bound = prog::errorBoundSafe(p, r.gp.x[k], 1e-15, r.uc, same);
        std::vector<double> got;
        try {
            got = read(r.gp.x[k]);
        } catch (const Bad& e) {
            std::string m = e.what();
            c.fail(m + (m.find("; case: ") == std::string::npos ? "; case: " : " ") + "{" + p.str() + "}" + r.opts + " document: " + text.substr(0, 1500));
        }
        for (size_t i = 0; i < p.m(); ++i) {
            if (bound[i] < 0) { c.label("ill-conditioned"); continue; }
            double tol = 4 * bound[i] + 1e-300;
            ++c.evals;
            if (!close(got[i], ref[i], tol))
                c.fail("a dependent has another value in the document; case: dependent " + std::to_string(i) + " is " + pbt::str(got[i]) + ", expected " + pbt::str(ref[i]) + " +- " + pbt::str(tol) +
                       " at x=" + pbt::strv(r.gp.x[k]) + " of {" + p.str() + "}" + r.opts + " document: " + text.substr(0, 1500));
        }
    }
    c.sample("{" + p.str() + "}" + r.opts);
    c.key(p.str() + r.opts);
    c.nontrivial(p.ins.size() > 1);
}

static void genNames(pbt::Gen& g, Common& r, const char* style) {
    const prog::Prog& p = r.gp.p;
    for (size_t i = 0; i < p.m(); ++i) {
        std::string s = std::to_string(i);
        r.dn.push_back(g.flip() ? (style[0] == 'm' ? "<mi>z" + s + "</mi>" : "z_{out," + s + "}") : "");
    }
    for (size_t i = 0; i < p.n; ++i) {
        std::string s = std::to_string(i);
        r.in.push_back(g.flip() ? (style[0] == 'm' ? "<msub><mi>T</mi><mn>" + s + "</mn></msub>" : "\\theta_{" + s + "}") : "");
    }
    if (g.flip() && !r.dn.empty()) r.dn.pop_back();
    if (g.flip() && !r.in.empty()) r.in.pop_back();
}

static void caseLatex(pbt::Case& c) {
    pbt::Gen& g = c.g;
    CodeHandler<double> h(g.flip() ? 50 : 1);
    Common r = record(c, h);
    const prog::Prog& p = r.gp.p;
    LanguageLatex<double> l;
    if (r.prec) l.setParameterPrecision(r.prec);
    l.setIgnoreZeroDepAssign(r.ignoreZero);
    if (g.flip()) { bool e = g.flip(); l.setAlwaysEnclosePowBase(e); r.opts += " enclose=" + std::to_string(e); }
    if (g.chance(25)) { l.setMultiplicationOperator(" \\cdot "); r.opts += " cdot"; }
    if (g.chance(25)) { l.setMultiplicationConstParOperator(" \\cdot "); r.opts += " constcdot"; }
    LatexMarks mk;
    if (g.chance(20)) { mk.var = {{"\\VV ", "\\EE "}}; l.setVariableEnvironment(mk.var[0], mk.var[1]); r.opts += " varEnv"; }
    if (g.chance(20)) { mk.dep = {{"\\DD ", "\\ED "}}; l.setDependentVarEnvironment(mk.dep[0], mk.dep[1]); r.opts += " depEnv"; }
    if (g.chance(20)) { mk.indep = {{"\\IV ", "\\EI "}}; l.setIndependentVarEnvironment(mk.indep[0], mk.indep[1]); r.opts += " indepEnv"; }
    Texts files;
    bool split = g.chance(35);
    if (split) { size_t k = g.size(1, 6); l.setMaxAssignmentsPerFunction(k, &files); r.opts += " maxAssign=" + std::to_string(k); c.label("split"); }
    if (g.flip()) l.setFilename("doc");
    std::unique_ptr<LangLatexDefaultVariableNameGenerator<double>> ng;
    int names = (int) g.below(3);
    std::string dN = "y", iN = "x";
    if (names == 0) ng.reset(new LangLatexDefaultVariableNameGenerator<double>());
    else if (names == 1) { ng.reset(new LangLatexDefaultVariableNameGenerator<double>("r", "u", "t")); }
    else { genNames(g, r, "latex"); ng.reset(new LangLatexCustomVariableNameGenerator<double>(r.dn, r.in)); c.label("custom names"); }
    r.opts += " names=" + std::to_string(names);
    std::ostringstream o;
    h.generateCode(o, l, r.y, *ng);
    std::string text = o.str();
    std::string master;
    if (split && files.size() > 1) {
        c.label("several files");
        for (auto& f : files) if (f.first.find("__part_") == std::string::npos) master = f.first;
        for (auto& f : files) text += "\n[" + f.first + "]\n" + f.second;
    }
    verify(c, r, text, [&](const std::vector<double>& x) {
        std::string doc = master.empty() ? o.str() : latexExpand(files, master);
        if (split && master.empty() && files.size() == 1 && files.begin()->second != doc) throw Bad("the saved file differs from the output");
        Vars v;
        // the names are asked to the same generator
        for (size_t i = 0; i < p.n; ++i) v.v[ng->generateIndependent(*r.x[i].getOperationNode(), i + 1)] = x[i];
        Latex(latexTokens(doc, mk), v).document();
        std::vector<double> y;
        for (size_t i = 0; i < p.m(); ++i) {
            std::string n = ng->generateDependent(i);
            if (r.ignoreZero && r.y[i].isIdenticalZero() && !v.v.count(n)) { y.push_back(0); continue; }
            y.push_back(v.get(n));
        }
        return y;
    });
}

static void caseMathML(pbt::Case& c) {
    pbt::Gen& g = c.g;
    CodeHandler<double> h(g.flip() ? 50 : 1);
    Common r = record(c, h);
    const prog::Prog& p = r.gp.p;
    LanguageMathML<double> l;
    if (r.prec) l.setParameterPrecision(r.prec);
    l.setIgnoreZeroDepAssign(r.ignoreZero);
    if (g.flip()) { bool e = g.flip(); l.setAlwaysEnclosePowBase(e); r.opts += " enclose=" + std::to_string(e); }
    if (g.chance(25)) { l.setMultiplicationMarkup("<mo>&times;</mo>"); r.opts += " times"; }
    bool rel = g.chance(40);
    l.setSaveVariableRelations(rel);
    Texts files;
    bool split = g.chance(25);
    if (split) { size_t k = g.size(1, 6); l.setMaxAssignmentsPerFunction(k, &files); r.opts += " maxAssign=" + std::to_string(k); }
    std::unique_ptr<LangMathMLDefaultVariableNameGenerator<double>> ng;
    int names = (int) g.below(3);
    if (names == 0) ng.reset(new LangMathMLDefaultVariableNameGenerator<double>());
    else if (names == 1) ng.reset(new LangMathMLDefaultVariableNameGenerator<double>("<mi>r</mi>", "<mi>u</mi>", "<mi>t</mi>"));
    else { genNames(g, r, "mathml"); ng.reset(new LangMathMLCustomVariableNameGenerator<double>(r.dn, r.in)); c.label("custom names"); }
    r.opts += " names=" + std::to_string(names);
    std::ostringstream o;
    h.generateCode(o, l, r.y, *ng);
    std::string text = o.str();
    std::string master;
    if (split && files.size() > 1) {
        c.label("several files");
        for (auto& f : files) if (f.first.find("__part_") == std::string::npos) master = f.first;
        for (auto& f : files) text += "\n[" + f.first + "]\n" + f.second;
    }
    auto norm = [](const std::string& markup) { std::string s = markup; Xml q(s); return q.parse().inner(); };
    verify(c, r, text, [&](const std::vector<double>& x) {
        Vars v;
        for (size_t i = 0; i < p.n; ++i) v.v[norm(ng->generateIndependent(*r.x[i].getOperationNode(), i + 1))] = x[i];
        auto one = [&](const std::string& doc, bool part) {
            Xml q(doc);
            El root = q.parse();
            const El* body = MathML::find(root, "body");
            const El* alg = body ? MathML::find(*body, "div") : nullptr;
            if (!alg && part) { MathML(v).statements(root); return; } // a fragment
            if (!alg) throw Bad("the document has no algorithm");
            if (body->ch.size() != 1) throw Bad("there is text after the algorithm");
            MathML(v).statements(*alg);
        };
        if (master.empty()) {
            one(o.str(), false);
            if (split && files.size() == 1 && files.begin()->second != o.str()) throw Bad("the saved file differs from the output");
        } else {
            // the parts are linked by the master document
            Xml q(files.at(master));
            El root = q.parse();
            const El* body = MathML::find(root, "body");
            const El* alg = body ? MathML::find(*body, "div") : nullptr;
            if (!alg) throw Bad("the main document has no algorithm");
            if (body->ch.size() != 1) throw Bad("there is text after the algorithm");
            El rest;
            for (const El& e : alg->ch) {
                if (e.tag == "a") {
                    auto it = files.find(e.at.at("href"));
                    if (it == files.end()) throw Bad("a file that is used does not exist; case: " + e.at.at("href"));
                    one(it->second, true);
                } else if (e.tag != "br") rest.ch.push_back(e);
            }
            MathML(v).statements(rest);
        }
        std::vector<double> y;
        for (size_t i = 0; i < p.m(); ++i) {
            std::string n = norm(ng->generateDependent(i));
            if (r.ignoreZero && r.y[i].isIdenticalZero() && !v.v.count(n)) { y.push_back(0); continue; }
            y.push_back(v.get(n));
        }
        return y;
    });
}

static void caseDot(pbt::Case& c) {
    pbt::Gen& g = c.g;
    CodeHandler<double> h(g.flip() ? 50 : 1);
    Common r = record(c, h);
    const prog::Prog& p = r.gp.p;
    LanguageDot<double> l;
    if (r.prec) l.setParameterPrecision(r.prec);
    l.setIgnoreZeroDepAssign(r.ignoreZero);
    bool combine = g.flip();
    l.setCombineParameterNodes(combine);
    r.opts += " combine=" + std::to_string(combine);
    if (g.chance(30)) { l.setIndepNodeStyle("shape=box"); l.setDepNodeStyle("shape=box, color=red"); r.opts += " styles"; }
    std::unique_ptr<LangCDefaultVariableNameGenerator<double>> ng;
    if (g.flip()) ng.reset(new LangCDefaultVariableNameGenerator<double>());
    else {
        std::vector<std::string> dn, in;
        for (size_t i = 0; i < p.m(); ++i) dn.push_back(g.flip() ? "out " + std::to_string(i) : "");
        for (size_t i = 0; i < p.n; ++i) in.push_back(g.flip() ? "in " + std::to_string(i) : "");
        ng.reset(new LangCCustomVariableNameGenerator<double>(dn, in));
        c.label("custom names");
    }
    std::ostringstream o;
    h.generateCode(o, l, r.y, *ng);
    verify(c, r, o.str(), [&](const std::vector<double>& x) {
        auto gr = dotParse(o.str());
        std::map<std::string, double> xs;
        for (size_t i = 0; i < p.n; ++i) xs[ng->generateIndependent(*r.x[i].getOperationNode(), i + 1)] = x[i];
        Dot d(gr, xs);
        std::vector<double> y;
        for (size_t i = 0; i < p.m(); ++i) {
            std::string n = "y" + std::to_string(i);
            if (r.ignoreZero && r.y[i].isIdenticalZero() && !gr.count(n)) { y.push_back(0); continue; }
            y.push_back(d.dep(n));
        }
        return y;
    });
}

int main(int argc, char** argv) {
    return pbt::mainRun(argc, argv, {
        {"latex", caseLatex, 300000, 4000000, 60, false,
         "random programs printed as LaTeX with random options (precision, names, environments, multiplication operators, several files), parsed back and evaluated; non-trivial: at least two operations", false},
        {"mathml", caseMathML, 150000, 2000000, 60, false,
         "random programs printed as MathML with random options, parsed back as XML with unique identifiers and evaluated; non-trivial: at least two operations", false},
        {"dot", caseDot, 300000, 4000000, 60, false,
         "random programs printed as dot graphs with random options, parsed back and evaluated; non-trivial: at least two operations", false},
    }, {});
}
