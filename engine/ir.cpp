#include "ir.h"
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <cmath>
using std::string; using std::string_view; using std::vector;

[[noreturn]] static void fail(const string& m) { throw std::runtime_error("ir: " + m); }

string stripHash(string_view s) {
  size_t p = s.find(".llvm.");
  if (p != string_view::npos) s = s.substr(0, p);
  if (s.size() > 20 && s.back() == 'E' && s.substr(s.size() - 20, 3) == "17h") {
    bool hex = true;
    for (size_t i = s.size() - 17; i < s.size() - 1; i++) if (!isxdigit((unsigned char)s[i])) hex = false;
    if (hex) return string(s.substr(0, s.size() - 20)) + "E";
  }
  return string(s);
}

string Func::demangled() const {
  // legacy rust mangling -> path (good enough for reporting)
  const string& s = base;
  if (s.rfind("_ZN", 0) != 0) return s;
  string out; size_t i = 3;
  while (i < s.size() && isdigit((unsigned char)s[i])) {
    size_t n = 0; while (i < s.size() && isdigit((unsigned char)s[i])) n = n * 10 + (s[i++] - '0');
    if (i + n > s.size()) break;
    if (!out.empty()) out += "::";
    string seg = s.substr(i, n); i += n;
    if (seg.size() > 1 && seg[0] == '_' && seg[1] == '$') seg = seg.substr(1);
    static const std::pair<const char*, const char*> rep[] = {{"$LT$", "<"}, {"$GT$", ">"}, {"$RF$", "&"}, {"$C$", ","}, {"$u20$", " "}, {"$u7b$", "{"}, {"$u7d$", "}"}, {"$u5b$", "["}, {"$u5d$", "]"}, {"$u27$", "'"}, {"$LP$", "("}, {"$RP$", ")"}, {"$BP$", "*"}, {"$u2b$", "+"}, {"..", "::"}, {"$u3b$", ";"}};
    for (auto& r : rep) { size_t p; while ((p = seg.find(r.first)) != string::npos) seg.replace(p, strlen(r.first), r.second); }
    out += seg;
  }
  return out;
}

// ---------------------------------------------------------------- types
Type* Program::simple(TK k) {
  string key = "#" + std::to_string(k); auto& t = tcache[key];
  if (!t) { tpool.push_back(Type{k}); t = &tpool.back(); t->k = k;
    if (k == T_PTR || k == T_F64) { t->size = t->align = 8; t->slots = 1; }
    else if (k == T_F32) { t->size = t->align = 4; t->slots = 1; }
    else if (k == T_FOTHER) { t->size = t->align = 16; t->slots = 1; } }
  return t;
}
Type* Program::intT(uint32_t w) {
  string key = "i" + std::to_string(w); auto& t = tcache[key];
  if (!t) { tpool.push_back(Type{T_INT}); t = &tpool.back(); t->bits = w; uint64_t b = (w + 7) / 8; uint64_t a = 1; while (a < b) a <<= 1; if (a > 16) a = 16; t->align = a; t->size = (b + a - 1) / a * a; t->slots = 1; }
  return t;
}
Type* Program::ptrT() { return simple(T_PTR); }
Type* Program::voidT() { return simple(T_VOID); }
static string tid(Type* t) { char b[32]; snprintf(b, 32, "%p", (void*)t); return b; }
Type* Program::arrT(uint64_t n, Type* el) {
  string key = "a" + std::to_string(n) + "x" + tid(el); auto& t = tcache[key];
  if (!t) { tpool.push_back(Type{T_ARRAY}); t = &tpool.back(); t->n = n; t->el = el; t->size = n * el->size; t->align = el->align; t->slots = n * el->slots; }
  return t;
}
Type* Program::vecT(uint64_t n, Type* el) {
  string key = "v" + std::to_string(n) + "x" + tid(el); auto& t = tcache[key];
  if (!t) { tpool.push_back(Type{T_VECTOR}); t = &tpool.back(); t->n = n; t->el = el; uint64_t b = (n * el->width() + 7) / 8; uint64_t a = 1; while (a < b) a <<= 1; t->size = a; t->align = a; t->slots = n; }
  return t;
}
Type* Program::structT(vector<Type*> m, bool packed) {
  string key = packed ? "S" : "s"; for (auto x : m) key += tid(x) + ","; auto& t = tcache[key];
  if (!t) { tpool.push_back(Type{T_STRUCT}); t = &tpool.back(); t->mem = m; t->packed = packed; uint64_t o = 0, al = 1; uint32_t sl = 0;
    for (auto x : m) { uint64_t a = packed ? 1 : x->align; o = (o + a - 1) / a * a; t->offs.push_back(o); t->slotoff.push_back(sl); sl += x->slots; o += x->size; if (a > al) al = a; }
    t->align = al; t->size = (o + al - 1) / al * al; t->slots = sl; }
  return t;
}
static void leavesRec(Type* t, uint64_t off, vector<Leaf>& out) {
  switch (t->k) {
    case T_ARRAY: for (uint64_t i = 0; i < t->n; i++) leavesRec(t->el, off + i * t->el->size, out); break;
    case T_VECTOR: for (uint64_t i = 0; i < t->n; i++) out.push_back({off + i * ((t->el->width() + 7) / 8), t->el}); break;
    case T_STRUCT: for (size_t i = 0; i < t->mem.size(); i++) leavesRec(t->mem[i], off + t->offs[i], out); break;
    case T_VOID: break;
    default: out.push_back({off, t});
  }
}
const vector<Leaf>& Program::leaves(Type* t) {
  auto it = lcache.find(t); if (it != lcache.end()) return it->second;
  vector<Leaf> v; leavesRec(t, 0, v); return lcache[t] = v;
}

// ---------------------------------------------------------------- lexer
enum Tok : uint8_t { K_EOF, K_WORD, K_LOCAL, K_GLOBAL, K_NUM, K_STR, K_CSTR, K_PUNCT, K_META, K_ATTR, K_LABEL, K_FLOATHEX, K_NL };
struct Lex {
  const char *p, *end; Tok t; string_view s; string buf; bool buffered = false; const char* start;
  Lex(const char* b, const char* e) : p(b), end(e) { next(); }
  static bool idc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.' || c == '$' || c == '-'; }
  void next() {
    for (;;) {
      while (p < end && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) p++;
      if (p < end && *p == ';') { while (p < end && *p != '\n') p++; continue; }
      break;
    }
    start = p; buffered = false;
    if (p >= end) { t = K_EOF; s = {}; return; }
    char c = *p;
    if (c == '%' || c == '@') {
      t = c == '%' ? K_LOCAL : K_GLOBAL; p++;
      if (*p == '"') { p++; const char* b = p; bool esc = false; while (*p != '"') { if (*p == '\\') esc = true; p++; } s = string_view(b, p - b); p++; (void)esc; return; }
      const char* b = p; while (p < end && idc(*p)) p++; s = string_view(b, p - b); return;
    }
    if (c == '"') { p++; const char* b = p; while (*p != '"') p++; s = string_view(b, p - b); p++; if (*p == ':') { t = K_LABEL; p++; } else t = K_STR; return; }
    if (c == 'c' && p + 1 < end && p[1] == '"') { p += 2; const char* b = p; while (*p != '"') p++; s = string_view(b, p - b); p++; t = K_CSTR; return; }
    if (c == '!') { p++; const char* b = p; while (p < end && (idc(*p) || *p == '\\')) p++; s = string_view(b, p - b); t = K_META; return; }
    if (c == '#') { p++; const char* b = p; while (p < end && isdigit((unsigned char)*p)) p++; s = string_view(b, p - b); t = K_ATTR; return; }
    if (isdigit((unsigned char)c) || (c == '-' && p + 1 < end && isdigit((unsigned char)p[1]))) {
      const char* b = p; p++;
      if (c == '0' && *p == 'x') { p++; while (p < end && isalnum((unsigned char)*p)) p++; s = string_view(b, p - b); t = K_FLOATHEX; return; }
      bool fl = false;
      while (p < end && (isdigit((unsigned char)*p) || *p == '.' || *p == 'e' || *p == 'E' || ((*p == '+' || *p == '-') && (p[-1] == 'e' || p[-1] == 'E')))) { if (*p == '.') fl = true; p++; }
      if (p < end && idc(*p)) { while (p < end && idc(*p)) p++; }
      s = string_view(b, p - b);
      if (p < end && *p == ':' ) { p++; t = K_LABEL; return; }
      t = fl ? K_FLOATHEX : K_NUM; return;
    }
    if ((c == '+' || c == '-') && p + 1 < end && isalpha((unsigned char)p[1])) { const char* b = p; p++; while (p < end && isalpha((unsigned char)*p)) p++; s = string_view(b, p - b); t = K_FLOATHEX; return; }
    if (isalpha((unsigned char)c) || c == '_' || c == '.' || c == '$' || c == '-') {
      const char* b = p; while (p < end && idc(*p)) p++; s = string_view(b, p - b);
      if (p < end && *p == ':') { p++; t = K_LABEL; return; }
      t = K_WORD; return;
    }
    t = K_PUNCT; p++; s = string_view(p - 1, 1);
    if (c == '.' && p + 1 < end && p[0] == '.' && p[1] == '.') { p += 2; s = string_view(start, 3); }
  }
  bool is(const char* w) const { return (t == K_WORD || t == K_PUNCT) && s == w; }
  bool pun(char c) const { return t == K_PUNCT && s.size() == 1 && s[0] == c; }
  bool accept(const char* w) { if (is(w)) { next(); return true; } return false; }
  bool acceptp(char c) { if (pun(c)) { next(); return true; } return false; }
  void expect(char c) { if (!pun(c)) fail(string("expected '") + c + "' near: " + string(start, std::min<size_t>(80, end - start))); next(); }
  void skipParen() { // at '('
    int d = 0; do { if (pun('(')) d++; else if (pun(')')) d--; next(); } while (d > 0 && t != K_EOF);
  }
};

static string unescape(string_view s) {
  string o; for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '\\' && i + 2 < s.size() + 0 && isxdigit((unsigned char)s[i + 1]) && i + 2 < s.size() && isxdigit((unsigned char)s[i + 2])) { o += (char)strtol(string(s.substr(i + 1, 2)).c_str(), 0, 16); i += 2; }
    else if (s[i] == '\\' && i + 1 < s.size() && s[i + 1] == '\\') { o += '\\'; i++; }
    else o += s[i]; }
  return o;
}

struct P {  // parser with module context
  Program& pr; Module* m; Lex L;
  P(Program& pr, Module* m, const char* b, const char* e) : pr(pr), m(m), L(b, e) {}
  [[noreturn]] void err(const string& w) { fail(w + " near: " + string(L.start, std::min<size_t>(120, L.end - L.start))); }

  bool isTypeStart() {
    if (L.t == K_LOCAL) return m->namedtypes.count(L.s) > 0;
    if (L.t == K_PUNCT) return L.pun('{') || L.pun('[') || L.pun('<');
    if (L.t != K_WORD) return false;
    if (L.s[0] == 'i' && L.s.size() > 1 && isdigit((unsigned char)L.s[1])) return true;
    return L.s == "ptr" || L.s == "void" || L.s == "double" || L.s == "float" || L.s == "label" || L.s == "metadata" || L.s == "half" || L.s == "fp128" || L.s == "x86_fp80" || L.s == "bfloat" || L.s == "token" || L.s == "opaque";
  }
  Type* type() {
    Type* t = nullptr;
    if (L.t == K_LOCAL) {
      auto it = m->ntypes.find(L.s);
      if (it != m->ntypes.end()) t = it->second;
      else {
        auto jt = m->namedtypes.find(L.s); if (jt == m->namedtypes.end()) err("unknown named type");
        P sub(pr, m, m->text + jt->second, m->text + m->len); t = sub.type(); m->ntypes[jt->first] = t;
      }
      L.next();
    } else if (L.acceptp('[')) {
      uint64_t n = strtoull(string(L.s).c_str(), 0, 10); L.next(); if (!L.accept("x")) err("array"); Type* el = type(); L.expect(']'); t = pr.arrT(n, el);
    } else if (L.acceptp('{')) { vector<Type*> v; while (!L.pun('}')) { v.push_back(type()); if (!L.acceptp(',')) break; } L.expect('}'); t = pr.structT(v, false);
    } else if (L.acceptp('<')) {
      if (L.acceptp('{')) { vector<Type*> v; while (!L.pun('}')) { v.push_back(type()); if (!L.acceptp(',')) break; } L.expect('}'); L.expect('>'); t = pr.structT(v, true); }
      else { uint64_t n = strtoull(string(L.s).c_str(), 0, 10); L.next(); if (!L.accept("x")) err("vector"); Type* el = type(); L.expect('>'); t = pr.vecT(n, el); }
    } else if (L.t == K_WORD) {
      string_view s = L.s;
      if (s[0] == 'i' && s.size() > 1 && isdigit((unsigned char)s[1])) t = pr.intT(atoi(string(s.substr(1)).c_str()));
      else if (s == "ptr") { t = pr.ptrT(); L.next(); if (L.is("addrspace")) { L.next(); L.skipParen(); } return fnSuffix(t); }
      else if (s == "void") t = pr.voidT(); else if (s == "double") t = pr.simple(T_F64); else if (s == "float") t = pr.simple(T_F32);
      else if (s == "label") t = pr.simple(T_LABEL); else if (s == "metadata" || s == "token") t = pr.simple(T_META);
      else if (s == "opaque") t = pr.simple(T_OPAQUE);
      else if (s == "half" || s == "bfloat" || s == "fp128" || s == "x86_fp80") t = pr.simple(T_FOTHER);
      else err("type?");
      L.next();
    } else err("type");
    return t;
  }
  Type* fnSuffix(Type* t) { return t; }

  // ---- constants into byte image
  void putInt(vector<uint8_t>& img, uint64_t off, uint64_t v, uint64_t n) { for (uint64_t i = 0; i < n; i++) img[off + i] = i < 8 ? (uint8_t)(v >> (8 * i)) : 0; }
  // parse constant value of type t, appending flattened scalars to out
  void constant(Type* t, vector<V>& out) {
    if (L.t == K_WORD && (L.s == "undef" || L.s == "poison" || L.s == "zeroinitializer" || L.s == "null" || L.s == "none")) { L.next(); for (uint32_t i = 0; i < t->slots; i++) out.push_back(V{}); return; }
    if (t->k == T_ARRAY && L.t == K_CSTR) { string s = unescape(L.s); L.next(); for (unsigned char c : s) { V v; v.c = c; out.push_back(v); } return; }
    if (t->k == T_ARRAY) { L.expect('['); while (!L.pun(']')) { Type* et = type(); constant(et, out); if (!L.acceptp(',')) break; } L.expect(']'); return; }
    if (t->k == T_STRUCT) { if (t->packed) L.expect('<'); L.expect('{'); while (!L.pun('}')) { Type* et = type(); constant(et, out); if (!L.acceptp(',')) break; } L.expect('}'); if (t->packed) L.expect('>'); return; }
    if (t->k == T_VECTOR) {
      if (L.accept("splat")) { L.expect('('); Type* et = type(); size_t b = out.size(); constant(et, out); V v = out[b]; for (uint64_t i = 1; i < t->n; i++) out.push_back(v); L.expect(')'); return; }
      L.expect('<'); while (!L.pun('>')) { Type* et = type(); constant(et, out); if (!L.acceptp(',')) break; } L.expect('>'); return; }
    V v;
    if (t->k == T_INT) {
      if (L.t == K_WORD && (L.s == "true" || L.s == "false")) { v.c = L.s == "true"; L.next(); }
      else if (L.t == K_NUM) { parseInt(L.s, t->bits, v); L.next(); }
      else if (L.t == K_WORD) v = constExpr();
      else err("int const");
      if (t->bits < 64) v.c &= (1ull << t->bits) - 1;
    } else if (t->k == T_PTR) {
      if (L.t == K_GLOBAL) { v.c = pr.symbolAddr(m, L.s); L.next(); }
      else if (L.t == K_WORD) v = constExpr(); else err("ptr const");
    } else if (t->k == T_F64 || t->k == T_F32 || t->k == T_FOTHER) {
      double d; uint64_t b;
      if (L.t == K_FLOATHEX && (L.s[0] == '+' || L.s[0] == '-') && isalpha((unsigned char)L.s[1])) {
        d = L.s.substr(1) == "inf" ? INFINITY : NAN; if (L.s[0] == '-') d = -d; memcpy(&b, &d, 8); L.next(); if (L.pun('(')) L.skipParen(); }
      else if (L.t == K_WORD && L.s.substr(0, 3) == "f0x") { v.c = strtoull(string(L.s.substr(3)).c_str(), 0, 16); L.next(); out.push_back(v); return; }
      else
      if (L.t == K_FLOATHEX && L.s.size() > 2 && L.s[1] == 'x') { if (!isxdigit((unsigned char)L.s[2]) || L.s[2] == 'K' ) { b = 0; } else b = strtoull(string(L.s.substr(2)).c_str(), 0, 16); memcpy(&d, &b, 8); L.next(); }
      else if (L.t == K_FLOATHEX || L.t == K_NUM) { d = strtod(string(L.s).c_str(), 0); memcpy(&b, &d, 8); L.next(); }
      else if (L.t == K_WORD) { v = constExpr(); out.push_back(v); return; }
      else err("float const");
      if (t->k == T_F64) v.c = b; else if (t->k == T_F32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); v.c = x; } else v.c = b;
    } else err("const kind");
    out.push_back(v);
  }
  static void parseInt(string_view s, uint32_t bits, V& v) {
    bool neg = s[0] == '-'; unsigned __int128 x = 0; for (size_t i = neg; i < s.size(); i++) x = x * 10 + (s[i] - '0');
    if (neg) x = -x;
    v.c = (uint64_t)x; v.h = (uint64_t)(x >> 64);
    if (bits < 64) { v.c &= (1ull << bits) - 1; v.h = 0; } else if (bits == 64) v.h = 0; else if (bits < 128) v.h &= (1ull << (bits - 64)) - 1;
  }
  V constExpr() {
    string op(L.s); L.next(); V r;
    if (op == "getelementptr") {
      while (L.t == K_WORD && !isTypeStart()) { bool inr = L.s == "inrange"; L.next(); if (inr && L.pun('(')) L.skipParen(); }
      L.expect('('); Type* bt = type(); L.expect(','); Type* pt = type(); vector<V> o; constant(pt, o); uint64_t a = o[0].c; Type* cur = bt; bool first = true;
      while (L.acceptp(',')) { if (L.is("inrange")) L.next(); Type* it = type(); vector<V> iv; constant(it, iv); int64_t ix = (int64_t)iv[0].c; if (it->bits == 32) ix = (int32_t)ix;
        if (first) { a += ix * cur->size; first = false; }
        else if (cur->k == T_STRUCT) { a += cur->offs[ix]; cur = cur->mem[ix]; } else { a += ix * cur->el->size; cur = cur->el; } }
      L.expect(')'); r.c = a; return r;
    }
    if (op == "ptrtoint" || op == "inttoptr" || op == "bitcast" || op == "trunc" || op == "zext" || op == "addrspacecast" || op == "sext") {
      L.expect('('); Type* st = type(); vector<V> o; constant(st, o); if (!L.accept("to")) err("to"); Type* dt = type(); L.expect(')'); r = o[0]; if (dt->k == T_INT && dt->bits < 64) r.c &= (1ull << dt->bits) - 1; return r;
    }
    if (op == "add" || op == "sub" || op == "xor" || op == "and" || op == "or" || op == "mul" || op == "shl" || op == "lshr") {
      while (L.t == K_WORD && !isTypeStart()) L.next();
      L.expect('('); Type* at = type(); vector<V> o; constant(at, o); L.expect(','); type(); constant(at, o); L.expect(')');
      uint64_t x = o[0].c, y = o[1].c; r.c = op == "add" ? x + y : op == "sub" ? x - y : op == "xor" ? x ^ y : op == "and" ? x & y : op == "or" ? x | y : op == "mul" ? x * y : op == "shl" ? x << y : x >> y; if (at->bits < 64) r.c &= (1ull << at->bits) - 1; return r;
    }
    if (op == "dso_local_equivalent" || op == "no_cfi") { vector<V> o; constant(pr.ptrT(), o); return o[0]; }
    err("const expr " + op);
  }
};

// ---------------------------------------------------------------- module loading
void Program::load(const string& path) {
  int fd = open(path.c_str(), O_RDONLY); if (fd < 0) fail("open " + path);
  struct stat st; fstat(fd, &st);
  auto M = std::make_unique<Module>(); Module* m = M.get(); m->path = path; m->len = st.st_size;
  if (!m->len) { close(fd); return; }
  m->text = (const char*)mmap(nullptr, m->len + 1, PROT_READ, MAP_PRIVATE, fd, 0); close(fd);
  if (m->text == MAP_FAILED) fail("mmap " + path);
  mods.push_back(std::move(M));
  const char* p = m->text; const char* end = m->text + m->len;
  auto lineEnd = [&](const char* q) { const char* r = (const char*)memchr(q, '\n', end - q); return r ? r : end; };
  auto isLocalLink = [](string_view w) { return w == "private" || w == "internal"; };
  while (p < end) {
    const char* le = lineEnd(p);
    if (*p == 'd' && le - p > 7 && !strncmp(p, "define", 6)) {
      // name
      const char* q = (const char*)memchr(p, '@', le - p); const char* nb; const char* ne;
      if (q[1] == '"') { nb = q + 2; ne = (const char*)memchr(nb, '"', le - nb); } else { nb = q + 1; ne = nb; while (Lex::idc(*ne)) ne++; }
      funcs.emplace_back(); Func* f = &funcs.back(); f->name = string(nb, ne); f->base = stripHash(f->name); f->mod = m; f->off = p - m->text; f->defined = true;
      m->lfuncs[string_view(nb, ne - nb)] = f;
      string_view hdr(p, q - p); bool local = hdr.find(" internal ") != string_view::npos || hdr.find(" private ") != string_view::npos;
      bool avail = hdr.find("available_externally") != string_view::npos;
      if (!local && !avail) { auto& g = gfuncs[f->name]; if (!g) g = f; }
      // skip to closing "\n}"
      const char* r = le; for (;;) { r = (const char*)memmem(r, end - r, "\n}", 2); if (!r) { r = end; break; } if (r + 2 >= end || r[2] == '\n' || r[2] == '\r') break; r += 2; }
      p = r + 2; if (p > end) p = end;
      while (p < end && *p == '\n') p++;
      continue;
    }
    if (*p == '@') {
      const char *nb, *ne, *q; if (p[1] == '"') { nb = p + 2; ne = (const char*)memchr(nb, '"', le - nb); q = ne + 1; } else { nb = p + 1; ne = nb; while (Lex::idc(*ne)) ne++; q = ne; }
      globals.emplace_back(); Global* g = &globals.back(); g->name = string(nb, ne); g->mod = m; g->off = q + 3 - m->text;
      // scan qualifier words
      const char* w = q + 3;
      for (;;) {
        while (w < le && *w == ' ') w++;
        const char* we = w; while (we < le && (isalnum((unsigned char)*we) || *we == '_')) we++;
        string_view word(w, we - w); w = we;
        if (isLocalLink(word)) g->local = true;
        else if (word == "thread_local") { g->tls = true; if (*w == '(') { while (*w != ')') w++; w++; } }
        else if (word == "external") g->ext = true; else if (word == "extern_weak") g->extweak = true;
        else if (word == "constant") { g->constant = true; break; } else if (word == "global") break; else if (word == "alias") { g->alias = true; break; }
        else if (word == "addrspace") { while (*w != ')') w++; w++; }
        else if (word.empty()) { if (w >= le) break; w++; }
      }
      g->off = w - m->text;
      m->lglobals[string_view(nb, ne - nb)] = g;
      if (!g->local && !g->ext && !g->extweak) { auto& x = gglobals[g->name]; if (!x) x = g; }
    } else if (*p == '%') {
      const char *nb, *ne, *q; if (p[1] == '"') { nb = p + 2; ne = (const char*)memchr(nb, '"', le - nb); q = ne + 1; } else { nb = p + 1; ne = nb; while (Lex::idc(*ne)) ne++; q = ne; }
      if (!strncmp(q, " = type ", 8)) m->namedtypes[string_view(nb, ne - nb)] = q + 8 - m->text;
    } else if (*p == '!' && le - p > 2 && isdigit((unsigned char)p[1])) { /* metadata: usually at the end */ }
    p = le + 1;
  }
}

Func* Program::findFunc(Module* m, string_view name) {
  if (m) { auto it = m->lfuncs.find(name); if (it != m->lfuncs.end()) { Func* f = it->second;
      return f; } }
  string n(name);
  auto it = gfuncs.find(n); if (it != gfuncs.end()) return it->second;
  // alias?
  Global* g = nullptr; if (m) { auto jt = m->lglobals.find(name); if (jt != m->lglobals.end()) g = jt->second; }
  if (!g) { auto jt = gglobals.find(n); if (jt != gglobals.end()) g = jt->second; }
  if (g && g->alias) { P ps(*this, g->mod, g->mod->text + g->off, g->mod->text + g->mod->len);
    // alias <ty> , ptr @target : skip the (function) type
    while (!(ps.L.is("ptr"))) { if (ps.L.pun('(')) { ps.L.skipParen(); continue; } if (ps.L.pun(',')) { ps.L.next(); if (ps.L.is("ptr")) break; continue; } ps.L.next(); }
    // there can be 'ptr' as return type: find ", ptr @"
    const char* b = g->mod->text + g->off; const char* nl = (const char*)memchr(b, '\n', g->mod->len - g->off); string_view line(b, nl - b);
    size_t k = line.rfind(", ptr @"); if (k == string_view::npos) fail("alias " + n);
    Lex lx(line.data() + k + 6, line.data() + line.size()); return findFunc(g->mod, lx.s); }
  funcs.emplace_back(); Func* f = &funcs.back(); f->name = n; f->base = stripHash(n); gfuncs[n] = f; return f;
}
uint64_t Program::funcAddr(Func* f) { if (!f->addr) { f->idx = byidx.size(); byidx.push_back(f); f->addr = 0x400000000ull + 16ull * f->idx; } return f->addr; }
Func* Program::funcAt(uint64_t a) { if (a < 0x400000000ull || (a & 15)) return nullptr; uint64_t i = (a - 0x400000000ull) / 16; return i < byidx.size() ? byidx[i] : nullptr; }
Global* Program::findGlobal(Module* m, string_view name) {
  if (m) { auto it = m->lglobals.find(name); if (it != m->lglobals.end()) { Global* g = it->second; if (!g->ext && !g->extweak) return g; auto jt = gglobals.find(string(name)); if (jt != gglobals.end()) return jt->second; return g; } }
  auto jt = gglobals.find(string(name)); return jt == gglobals.end() ? nullptr : jt->second;
}
uint64_t Program::symbolAddr(Module* m, string_view name) {
  if (m) { auto ft = m->lfuncs.find(name); if (ft != m->lfuncs.end()) return funcAddr(ft->second); }
  Global* g = findGlobal(m, name);
  if (g && g->alias) { return funcAddr(findFunc(m, name)); }
  if (g) { if (g->extweak) return 0; materialize(g); return g->addr; }
  return funcAddr(findFunc(m, name));
}
void Program::materialize(Global* g) {
  if (g->addr) return;
  P ps(*this, g->mod, g->mod->text + g->off, g->mod->text + g->mod->len);
  g->ty = ps.type();
  // alignment: find ", align N" at end of line
  const char* b = g->mod->text + g->off; const char* nl = (const char*)memchr(b, '\n', g->mod->len - g->off); if (!nl) nl = g->mod->text + g->mod->len; string_view line(b, nl - b);
  size_t k = line.rfind(", align "); g->align = k == string_view::npos ? g->ty->align : strtoull(line.data() + k + 8, 0, 10);
  uint64_t& nx = g->tls ? tlsNext : g->constant ? roNext : rwNext; bool ro = g->constant && !g->tls; uint64_t al = ro ? std::max<uint64_t>(g->align, 8) : 1024;
  nx = (nx + al - 1) / al * al; g->addr = nx; nx += std::max<uint64_t>(g->ty->size, 1); if (!ro) nx = (nx + 1023) / 1024 * 1024;
  if (g->ext) { vector<uint8_t> z(std::max<uint64_t>(g->ty->size, 8), 0); writeBase(wctx, g->addr, z.data(), g->ty->size); return; }
  pending.push_back(g);
  if (draining) return;
  draining = true;
  while (!pending.empty()) {
    Global* x = pending.back(); pending.pop_back();
    P q(*this, x->mod, x->mod->text + x->off, x->mod->text + x->mod->len); Type* t = q.type();
    vector<V> vals; q.constant(t, vals); vector<uint8_t> img(t->size, 0); auto& lv = leaves(t);
    if (lv.size() != vals.size()) fail("global init size " + x->name);
    for (size_t i = 0; i < lv.size(); i++) { uint64_t sz = lv[i].ty->size; for (uint64_t j = 0; j < sz && lv[i].off + j < img.size(); j++) img[lv[i].off + j] = j < 8 ? (uint8_t)(vals[i].c >> (8 * j)) : j < 16 ? (uint8_t)(vals[i].h >> (8 * (j - 8))) : 0; }
    if (!img.empty()) writeBase(wctx, x->addr, img.data(), img.size());
  }
  draining = false;
}

// ---------------------------------------------------------------- function decoding
struct FD : P {
  Func* f; std::unordered_map<string_view, std::pair<uint32_t, Type*>> locals; // name -> slot
  struct Fix { string_view name; };
  std::unordered_map<string_view, uint32_t> blockPc;
  struct PhiIn { string_view pred; Opnd src; };
  struct Phi { uint32_t dst; Type* ty; vector<std::pair<string_view, Opnd>> in; };
  std::unordered_map<string_view, vector<Phi>> phis;
  struct EdgeFix { int edge; string_view from, to; };
  vector<EdgeFix> efix; string_view cur;
  uint32_t nslots = 0;
  FD(Program& p, Func* f) : P(p, f->mod, f->mod->text + f->off, f->mod->text + f->mod->len), f(f) {}

  uint32_t slotFor(string_view n, Type* t) {
    auto it = locals.find(n);
    if (it != locals.end()) { if (it->second.second->slots != t->slots) err("slot mismatch"); return it->second.first; }
    uint32_t s = nslots; nslots += std::max<uint32_t>(t->slots, 1); locals[n] = {s, t}; return s;
  }
  Opnd addConst(const vector<V>& v) { Opnd o = ~(Opnd)f->consts.size(); for (auto& x : v) f->consts.push_back(x); if (v.empty()) f->consts.push_back(V{}); return o; }
  Opnd value(Type* t) {
    if (L.t == K_LOCAL) { uint32_t s = slotFor(L.s, t); L.next(); return (Opnd)s; }
    if (t->k == T_META) { // metadata operand
      skipMeta(); return addConst({V{}}); }
    vector<V> v;
    if (t->k == T_PTR && L.t == K_WORD && L.s == "asm") err("asm value");
    bool ptr = t->k == T_PTR || (L.t == K_WORD && L.s == "ptrtoint"); constant(t, v);
    if (ptr && v.size() == 1 && (v[0].c >> 31) == 3) { for (auto& x : f->tls) if (x.second == v[0].c) return (Opnd)x.first; f->tls.push_back({nslots, v[0].c}); return (Opnd)nslots++; }
    return addConst(v);
  }
  void skipMeta() {
    if (L.t == K_META) { bool paren = false; L.next(); if (L.pun('(')) { paren = true; L.skipParen(); } else if (L.pun('{')) { int d = 0; do { if (L.pun('{')) d++; else if (L.pun('}')) d--; L.next(); } while (d); } (void)paren; return; }
    if (isTypeStart()) { Type* t = type(); value(t); return; }
    L.next();
  }
  void skipAttrs() { // parameter / return attributes
    for (;;) {
      if (L.t == K_WORD && !isTypeStart()) {
        static const char* ops[] = {"asm", "to", nullptr};
        for (int i = 0; ops[i]; i++) if (L.s == ops[i]) return;
        if (L.s == "undef" || L.s == "poison" || L.s == "null" || L.s == "zeroinitializer" || L.s == "true" || L.s == "false" || L.s == "getelementptr" || L.s == "ptrtoint" || L.s == "inttoptr" || L.s == "none" || L.s == "splat" || L.s == "bitcast" || L.s == "sub" || L.s == "add" || L.s == "xor") return;
        bool al = L.s == "align"; bool cc = L.s == "cc"; L.next();
        if ((al || cc) && L.t == K_NUM) L.next(); else if (L.pun('(')) L.skipParen();
        continue;
      }
      if (L.t == K_STR) { L.next(); if (L.pun('=')) { L.next(); L.next(); } continue; }
      if (L.t == K_ATTR) { L.next(); continue; }
      break;
    }
  }
  int edge(string_view to) { int e = f->edges.size(); f->edges.emplace_back(); efix.push_back({e, cur, to}); return e; }
  string_view label() { if (!L.accept("label")) err("label"); string_view s = L.s; L.next(); return s; }
  void flags() { while (L.t == K_WORD && !isTypeStart() && (L.s == "nuw" || L.s == "nsw" || L.s == "exact" || L.s == "disjoint" || L.s == "nneg" || L.s == "inbounds" || L.s == "nusw" || L.s == "samesign" || L.s == "fast" || L.s == "nnan" || L.s == "ninf" || L.s == "nsz" || L.s == "arcp" || L.s == "contract" || L.s == "afn" || L.s == "reassoc" || L.s == "volatile" || L.s == "atomic" || L.s == "weak")) L.next(); }
  void skipSuffix() { // ", align 8, !meta !3 ..." after instruction
    for (;;) {
      if (L.pun(',')) { L.next(); if (L.is("align")) { L.next(); L.next(); continue; } if (L.t == K_META) { L.next(); if (L.t == K_META) { L.next(); if (L.pun('(')) L.skipParen(); else if (L.pun('{')) skipBrace(); } else if (L.pun('{')) skipBrace(); continue; } if (L.is("addrspace")) { L.next(); L.skipParen(); continue; } err("suffix"); }
      if (L.t == K_WORD && (L.s == "syncscope")) { L.next(); L.skipParen(); continue; }
      if (L.t == K_WORD && (L.s == "monotonic" || L.s == "acquire" || L.s == "release" || L.s == "acq_rel" || L.s == "seq_cst" || L.s == "unordered")) { L.next(); continue; }
      if (L.t == K_ATTR) { L.next(); continue; }
      break;
    }
  }
  void skipBrace() { int d = 0; do { if (L.pun('{')) d++; else if (L.pun('}')) d--; L.next(); } while (d); }

  void gepTail(Inst& I, Type* bt) {
    Type* cur = bt; bool first = true;
    while (L.pun(',')) {
      // lookahead: metadata suffix
      const char* sp = L.p; Tok st = L.t; string_view ss = L.s; const char* sst = L.start; L.next();
      if (L.t == K_META) { L.p = sp; L.t = st; L.s = ss; L.start = sst; break; }
      if (L.is("inrange")) L.next();
      Type* it = type(); Opnd o = value(it);
      if (it->k == T_VECTOR) { I.op = O_UNSUPPORTED; I.str = "vector gep"; }
      uint64_t scale;
      if (first) { scale = cur->size; first = false; }
      else if (cur->k == T_STRUCT) { uint64_t ix = f->consts[~o].c; I.imm += cur->offs[ix]; cur = cur->mem[ix]; continue; }
      else { cur = cur->el; scale = cur->size; }
      if (o < 0) { int64_t ix = (int64_t)f->consts[~o].c; if (it->bits < 64) ix = (ix << (64 - it->bits)) >> (64 - it->bits); I.imm += ix * scale; }
      else I.gidx.push_back({o, it->bits, scale});
    }
  }

  void run() {
    // header
    L.next(); // define
    // skip linkage etc until return type; return attributes may precede the type
    while (!isTypeStart()) { if (L.pun('(')) { L.skipParen(); continue; } bool al = L.is("align") || L.is("cc"); L.next(); if (al && L.t == K_NUM) L.next(); }
    f->ret = type(); if (L.t != K_GLOBAL) err("fn name"); L.next(); L.expect('('); f->params.clear();
    uint32_t unnamed = 0;
    while (!L.pun(')')) {
      if (L.is("...")) { L.next(); f->varargs = true; break; }
      if (L.pun('.')) { while (L.pun('.')) L.next(); f->varargs = true; break; }
      Type* t = type(); skipAttrs(); string_view nm;
      if (L.t == K_LOCAL) { nm = L.s; L.next(); } else { err("unnamed param"); }
      (void)unnamed;
      uint32_t s = slotFor(nm, t); f->params.push_back({t, string(nm)}); f->paramslots.push_back(s);
      if (!L.acceptp(',')) break;
    }
    L.expect(')');
    while (!L.pun('{')) { // fn attrs, personality etc.
      if (L.is("personality") || L.is("prefix") || L.is("prologue")) { L.next(); Type* t = type(); if (L.t == K_GLOBAL) L.next(); else { vector<V> v; constant(t, v); } continue; }
      if (L.pun('(')) { L.skipParen(); continue; }
      L.next();
    }
    L.next();
    cur = string_view("\x01""entry"); bool firstLabel = true; bool sawInst = false;
    blockPc[cur] = 0; uint32_t anon = f->params.size(); (void)anon;
    // the implicit entry block name: number of unnamed values; we accept phi refs through alias
    while (!L.pun('}')) {
      if (L.t == K_EOF) err("eof in function");
      if (L.t == K_LABEL) { if (firstLabel && !sawInst) { cur = L.s; blockPc[cur] = 0; entryName = cur; } else { cur = L.s; blockPc[cur] = f->code.size(); } firstLabel = false; L.next(); continue; }
      if (L.t == K_ATTR && L.s.empty()) { L.next(); L.next(); if (L.pun('(')) L.skipParen(); continue; } // debug records
      { const char* at = L.p; size_t k0 = f->code.size(); sawInst = true; inst(); for (size_t k = k0; k < f->code.size(); k++) f->code[k].src = at; }
    }
    // resolve edges
    for (auto& ef : efix) {
      Edge& e = f->edges[ef.edge]; auto it = blockPc.find(ef.to); if (it == blockPc.end()) fail("no block " + string(ef.to) + " in " + f->name);
      e.pc = it->second; auto ph = phis.find(ef.to); if (ph == phis.end()) continue;
      for (auto& p : ph->second) {
        bool found = false;
        for (auto& in : p.in) if (in.first == ef.from || (ef.from == string_view("\x01""entry") && !hasBlockNamed(in.first))) { e.copies.push_back({p.dst, in.second, p.ty->slots}); found = true; break; }
        if (!found) fail("phi edge missing " + string(ef.from) + "->" + string(ef.to) + " in " + f->name);
      }
      // overlap?
      for (size_t i = 0; i < e.copies.size() && !e.overlap; i++) for (size_t j = 0; j < e.copies.size(); j++) if (j > i && e.copies[j].src >= 0 && (uint32_t)e.copies[j].src < e.copies[i].dst + e.copies[i].n && e.copies[i].dst < (uint32_t)e.copies[j].src + e.copies[j].n) { e.overlap = true; break; }
    }
    f->nslots = nslots; f->decoded = true;
  }
  string_view entryName;
  bool hasBlockNamed(string_view n) { return blockPc.count(n) > 0; }

  void inst() {
    Inst I; I.op = O_UNSUPPORTED; string_view res; bool hasRes = false; const char* begin = L.start;
    if (L.t == K_LOCAL) { res = L.s; hasRes = true; L.next(); L.expect('='); }
    if (L.t != K_WORD) err("opcode");
    string_view op = L.s;
    auto setDst = [&](Type* t) { if (hasRes) I.dst = slotFor(res, t); };
    static const std::unordered_map<string_view, Op> bin = {{"add", O_ADD}, {"sub", O_SUB}, {"mul", O_MUL}, {"udiv", O_UDIV}, {"sdiv", O_SDIV}, {"urem", O_UREM}, {"srem", O_SREM}, {"shl", O_SHL}, {"lshr", O_LSHR}, {"ashr", O_ASHR}, {"and", O_AND}, {"or", O_OR}, {"xor", O_XOR}, {"fadd", O_FADD}, {"fsub", O_FSUB}, {"fmul", O_FMUL}, {"fdiv", O_FDIV}, {"frem", O_FREM}};
    static const std::unordered_map<string_view, Op> cast = {{"trunc", O_TRUNCT}, {"zext", O_ZEXT}, {"sext", O_SEXT}, {"fptrunc", O_FPTRUNC}, {"fpext", O_FPEXT}, {"fptoui", O_FPTOUI}, {"fptosi", O_FPTOSI}, {"uitofp", O_UITOFP}, {"sitofp", O_SITOFP}, {"bitcast", O_BITCAST}, {"ptrtoint", O_NOPCAST}, {"inttoptr", O_NOPCAST}, {"addrspacecast", O_NOPCAST}, {"ptrtoaddr", O_NOPCAST}};
    auto bi = bin.find(op);
    if (bi != bin.end()) { L.next(); flags(); I.op = bi->second; I.ty = type(); I.a = value(I.ty); L.expect(','); I.b = value(I.ty); setDst(I.ty); skipSuffix(); f->code.push_back(std::move(I)); return; }
    auto ci = cast.find(op);
    if (ci != cast.end()) { L.next(); flags(); I.op = ci->second; I.ty2 = type(); I.a = value(I.ty2); if (!L.accept("to")) err("to"); I.ty = type(); setDst(I.ty); skipSuffix(); f->code.push_back(std::move(I)); return; }
    if (op == "phi") { L.next(); flags(); Type* t = type(); Phi p; p.ty = t; p.dst = slotFor(res, t); do { L.expect('['); Opnd o = value(t); L.expect(','); string_view b = L.s; L.next(); L.expect(']'); p.in.push_back({b, o}); if (!L.pun(',')) break; const char* sp = L.p; L.next(); if (L.t == K_META) { L.p = sp - 1; L.next(); break; } } while (true); skipSuffix(); phis[cur].push_back(std::move(p)); return; }
    if (op == "br") { L.next(); if (L.is("label")) { I.op = O_BR; I.edges.push_back(edge(label())); } else { Type* t = type(); I.op = O_CONDBR; I.a = value(t); L.expect(','); string_view x = label(); L.expect(','); string_view y = label(); I.edges.push_back(edge(x)); I.edges.push_back(edge(y)); } skipSuffix(); f->code.push_back(std::move(I)); return; }
    if (op == "switch") { L.next(); I.op = O_SWITCH; I.ty = type(); I.a = value(I.ty); L.expect(','); I.edges.push_back(edge(label())); L.expect('['); std::unordered_map<string_view, int> em; while (!L.pun(']')) { Type* t = type(); vector<V> v; constant(t, v); L.expect(','); string_view b = label(); int e; auto it = em.find(b); if (it == em.end()) { e = edge(b); em[b] = e; } else e = it->second; I.cases.push_back({v[0].c, e}); } L.next(); skipSuffix(); f->code.push_back(std::move(I)); return; }
    if (op == "ret") { L.next(); I.op = O_RET; I.ty = type(); if (I.ty->k != T_VOID) I.a = value(I.ty); skipSuffix(); f->code.push_back(std::move(I)); return; }
    if (op == "unreachable") { L.next(); I.op = O_UNREACHABLE; skipSuffix(); f->code.push_back(std::move(I)); return; }
    if (op == "resume") { L.next(); Type* t = type(); value(t); I.op = O_RESUME; skipSuffix(); f->code.push_back(std::move(I)); return; }
    if (op == "alloca") { L.next(); if (L.is("inalloca")) L.next(); I.op = O_ALLOCA; I.ty = type(); I.imm = 0; I.b = 0; I.c = 16; uint64_t al = I.ty->align; I.a = addConst({V{1}});
      while (L.pun(',')) { L.next(); if (L.is("align")) { L.next(); al = strtoull(string(L.s).c_str(), 0, 10); L.next(); } else if (L.t == K_META) { L.next(); L.next(); } else if (L.is("addrspace")) { L.next(); L.skipParen(); } else { Type* t = type(); I.a = value(t); } }
      I.imm = al; setDst(pr.ptrT()); f->code.push_back(std::move(I)); return; }
    if (op == "load") { L.next(); flags(); I.op = O_LOAD; I.ty = type(); L.expect(','); Type* pt = type(); I.a = value(pt); setDst(I.ty); skipSuffix(); f->code.push_back(std::move(I)); return; }
    if (op == "store") { L.next(); flags(); I.op = O_STORE; I.ty = type(); I.a = value(I.ty); L.expect(','); Type* pt = type(); I.b = value(pt); skipSuffix(); f->code.push_back(std::move(I)); return; }
    if (op == "fence") { L.next(); skipSuffix(); return; }
    if (op == "cmpxchg") { L.next(); flags(); I.op = O_CMPXCHG; Type* pt = type(); I.a = value(pt); L.expect(','); I.ty2 = type(); I.b = value(I.ty2); L.expect(','); type(); I.c = value(I.ty2); I.ty = pr.structT({I.ty2, pr.intT(1)}, false); setDst(I.ty); skipSuffix(); f->code.push_back(std::move(I)); return; }
    if (op == "atomicrmw") { L.next(); flags(); I.op = O_ATOMICRMW; I.str = string(L.s); L.next(); Type* pt = type(); I.a = value(pt); L.expect(','); I.ty = type(); I.b = value(I.ty); setDst(I.ty); skipSuffix(); f->code.push_back(std::move(I)); return; }
    if (op == "getelementptr") { L.next(); flags(); I.op = O_GEP; Type* bt = type(); L.expect(','); Type* pt = type(); I.a = value(pt); if (pt->k != T_PTR) { I.op = O_UNSUPPORTED; I.str = "vector gep"; } gepTail(I, bt); setDst(pr.ptrT()); skipSuffix(); f->code.push_back(std::move(I)); return; }
    if (op == "icmp" || op == "fcmp") { L.next(); flags(); static const std::unordered_map<string_view, int> ip = {{"eq", P_EQ}, {"ne", P_NE}, {"ugt", P_UGT}, {"uge", P_UGE}, {"ult", P_ULT}, {"ule", P_ULE}, {"sgt", P_SGT}, {"sge", P_SGE}, {"slt", P_SLT}, {"sle", P_SLE}}; static const std::unordered_map<string_view, int> fp = {{"false", F_FALSE}, {"oeq", F_OEQ}, {"ogt", F_OGT}, {"oge", F_OGE}, {"olt", F_OLT}, {"ole", F_OLE}, {"one", F_ONE}, {"ord", F_ORD}, {"uno", F_UNO}, {"ueq", F_UEQ}, {"ugt", F_UGT}, {"uge", F_UGE}, {"ult", F_ULT}, {"ule", F_ULE}, {"une", F_UNE}, {"true", F_TRUE}};
      I.op = op == "icmp" ? O_ICMP : O_FCMP; I.sub = op == "icmp" ? ip.at(L.s) : fp.at(L.s); L.next(); I.ty2 = type(); I.a = value(I.ty2); L.expect(','); I.b = value(I.ty2); I.ty = I.ty2->k == T_VECTOR ? pr.vecT(I.ty2->n, pr.intT(1)) : pr.intT(1); setDst(I.ty); skipSuffix(); f->code.push_back(std::move(I)); return; }
    if (op == "select") { L.next(); flags(); I.op = O_SELECT; I.ty2 = type(); I.a = value(I.ty2); L.expect(','); I.ty = type(); I.b = value(I.ty); L.expect(','); type(); I.c = value(I.ty); setDst(I.ty); skipSuffix(); f->code.push_back(std::move(I)); return; }
    if (op == "freeze") { L.next(); I.op = O_FREEZE; I.ty = type(); I.a = value(I.ty); setDst(I.ty); skipSuffix(); f->code.push_back(std::move(I)); return; }
    if (op == "fneg") { L.next(); flags(); I.op = O_FNEG; I.ty = type(); I.a = value(I.ty); setDst(I.ty); skipSuffix(); f->code.push_back(std::move(I)); return; }
    if (op == "extractvalue") { L.next(); I.op = O_EXTRACTVALUE; I.ty2 = type(); I.a = value(I.ty2); Type* c = I.ty2; uint64_t s = 0; while (L.pun(',')) { const char* sp = L.p; L.next(); if (L.t == K_META) { L.p = sp - 1; L.next(); break; } uint64_t ix = strtoull(string(L.s).c_str(), 0, 10); L.next(); if (c->k == T_STRUCT) { s += c->slotoff[ix]; c = c->mem[ix]; } else { s += ix * c->el->slots; c = c->el; } } I.imm = s; I.ty = c; setDst(c); skipSuffix(); f->code.push_back(std::move(I)); return; }
    if (op == "insertvalue") { L.next(); I.op = O_INSERTVALUE; I.ty = type(); I.a = value(I.ty); L.expect(','); I.ty2 = type(); I.b = value(I.ty2); Type* c = I.ty; uint64_t s = 0; while (L.pun(',')) { const char* sp = L.p; L.next(); if (L.t == K_META) { L.p = sp - 1; L.next(); break; } uint64_t ix = strtoull(string(L.s).c_str(), 0, 10); L.next(); if (c->k == T_STRUCT) { s += c->slotoff[ix]; c = c->mem[ix]; } else { s += ix * c->el->slots; c = c->el; } } I.imm = s; setDst(I.ty); skipSuffix(); f->code.push_back(std::move(I)); return; }
    if (op == "extractelement") { L.next(); I.op = O_EXTRACTELEMENT; I.ty2 = type(); I.a = value(I.ty2); L.expect(','); Type* it = type(); I.b = value(it); I.ty = I.ty2->el; setDst(I.ty); skipSuffix(); f->code.push_back(std::move(I)); return; }
    if (op == "insertelement") { L.next(); I.op = O_INSERTELEMENT; I.ty = type(); I.a = value(I.ty); L.expect(','); type(); I.b = value(I.ty->el); L.expect(','); Type* it = type(); I.c = value(it); setDst(I.ty); skipSuffix(); f->code.push_back(std::move(I)); return; }
    if (op == "shufflevector") { L.next(); I.op = O_SHUFFLE; I.ty2 = type(); I.a = value(I.ty2); L.expect(','); type(); I.b = value(I.ty2); L.expect(','); Type* mt = type(); vector<V> mv; constant(mt, mv); for (auto& x : mv) I.mask.push_back((int)x.c); I.ty = pr.vecT(mt->n, I.ty2->el); setDst(I.ty); skipSuffix(); f->code.push_back(std::move(I)); return; }
    if (op == "landingpad") { L.next(); I.op = O_LANDINGPAD; I.ty = type(); for (;;) { if (L.accept("cleanup")) continue; if (L.is("catch") || L.is("filter")) { L.next(); Type* t = type(); value(t); continue; } break; } setDst(I.ty); skipSuffix(); f->code.push_back(std::move(I)); return; }
    if (op == "tail" || op == "musttail" || op == "notail") { L.next(); op = L.s; }
    if (op == "call" || op == "invoke") {
      bool inv = op == "invoke"; L.next(); I.op = O_CALL;
      // cc, ret attrs, flags
      while (!isTypeStart()) { if (L.pun('(')) { L.skipParen(); continue; } bool al = L.is("align") || L.is("cc"); L.next(); if (al && L.t == K_NUM) L.next(); }
      I.ty = type();
      if (L.pun('(')) L.skipParen(); // full function type for varargs
      if (L.is("asm")) {
        L.next(); while (L.t == K_WORD) L.next(); I.str = string(L.s); L.next(); L.expect(','); L.next(); I.sub = 1; I.callee = nullptr;
      } else if (L.t == K_GLOBAL) { I.callee = pr.findFunc(m, L.s); L.next(); I.sub = 0; }
      else if (L.t == K_LOCAL) { I.a = value(pr.ptrT()); I.sub = 2; }
      else if (L.t == K_WORD) { vector<V> v; constant(pr.ptrT(), v); I.a = addConst(v); I.sub = 2; }
      else err("callee");
      L.expect('(');
      while (!L.pun(')')) { Type* t = type(); skipAttrs(); if (t->k == T_META) { skipMeta(); } else { Opnd o = value(t); I.args.push_back(o); I.argtys.push_back(t); } if (!L.acceptp(',')) break; }
      L.expect(')');
      while (L.t == K_ATTR || L.pun('[') || (L.t == K_STR) || (L.t == K_WORD && !inv && (L.s == "nounwind" || L.s == "noreturn" || L.s == "cold" || L.s == "readnone" || L.s == "memory")) ) { if (L.pun('[')) { int d = 0; do { if (L.pun('[')) d++; else if (L.pun(']')) d--; L.next(); } while (d); } else if (L.is("memory")) { L.next(); L.skipParen(); } else L.next(); }
      if (I.ty->k != T_VOID) { setDst(I.ty); if (!hasRes) { I.dst = nslots; nslots += std::max<uint32_t>(1, I.ty->slots); } }
      if (inv) { if (!L.accept("to")) err("invoke to"); string_view x = label(); if (!L.accept("unwind")) err("unwind"); string_view y = label(); skipSuffix(); f->code.push_back(std::move(I)); Inst B; B.op = O_BR; B.edges.push_back(edge(x)); (void)y; f->code.push_back(std::move(B)); return; }
      skipSuffix(); f->code.push_back(std::move(I)); return;
    }
    err("unsupported op " + string(op)); (void)begin;
  }
};

void Program::decode(Func* f) {
  if (f->decoded) return;
  FD d(*this, f); d.run(); nDecoded++; nInsts += f->code.size();
}
