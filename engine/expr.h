// Symbolic values: a 64 bit machine word or a z3 term (Bool sort for width 1, bit vector otherwise).
#pragma once
#include <unistd.h>
#include <z3.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <set>
#include <map>
#include <algorithm>
#include <chrono>

struct V {
  uint64_t c = 0;
  Z3_ast s = nullptr;
  V() = default;
  V(uint64_t x) : c(x) {}
  V(uint64_t x, Z3_ast a) : c(x), s(a) {}
  bool sym() const { return s != nullptr; }
  bool operator==(const V& o) const { return c == o.c && s == o.s; }
};

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sextw(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ m) - m);
}

struct Z {
  Z3_context c;
  Z3_solver solver;
  Z3_ast tru, fls;
  uint64_t queries = 0, cacheHits = 0, unknowns = 0, satN = 0, unsatN = 0;
  double solverTime = 0;
  std::unordered_map<unsigned, Z3_sort> sorts;
  std::unordered_map<Z3_ast, std::vector<uint32_t>> varMemo;
  std::unordered_map<Z3_ast, uint32_t> varIds;
  std::vector<Z3_ast> varAst;
  std::vector<bool> varUndef;
  std::unordered_map<std::string, Z3_ast> varByName;
  std::unordered_map<std::string, int> cache;

  Z() {
    Z3_config cfg = Z3_mk_config();
    c = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(c, [](Z3_context c, Z3_error_code e) {
      fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
      fflush(stderr);
      _exit(5);
    });
    tru = Z3_mk_true(c);
    fls = Z3_mk_false(c);
    solver = Z3_mk_simple_solver(c);
    Z3_solver_inc_ref(c, solver);
    setTimeout(20000);
  }
  void setTimeout(unsigned ms) {
    Z3_params p = Z3_mk_params(c);
    Z3_params_inc_ref(c, p);
    Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), ms);
    Z3_solver_set_params(c, solver, p);
    Z3_params_dec_ref(c, p);
  }
  Z3_sort bvs(unsigned w) {
    auto& s = sorts[w];
    if (!s) s = Z3_mk_bv_sort(c, w);
    return s;
  }
  Z3_ast num(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(c, v & maskw(w), bvs(w)); }
  // term of a value; width 1 -> Bool
  Z3_ast t(const V& v, unsigned w) {
    if (v.s) return v.s;
    if (w == 1) return (v.c & 1) ? tru : fls;
    return num(v.c, w);
  }
  V back(Z3_ast a, unsigned w) {
    if (w == 1) {
      Z3_lbool b = Z3_get_bool_value(c, a);
      if (b == Z3_L_TRUE) return V(1);
      if (b == Z3_L_FALSE) return V(0);
      return V(0, a);
    }
    if (Z3_get_ast_kind(c, a) == Z3_NUMERAL_AST) {
      uint64_t x = 0;
      Z3_get_numeral_uint64(c, a, &x);
      return V(x);
    }
    return V(0, a);
  }
  V simp(Z3_ast a, unsigned w) { return back(Z3_simplify(c, a), w); }
  Z3_ast var(const std::string& name, unsigned w, bool undef) {
    auto it = varByName.find(name);
    if (it != varByName.end()) return it->second;
    Z3_ast a = Z3_mk_const(c, Z3_mk_string_symbol(c, name.c_str()), w == 1 ? Z3_mk_bool_sort(c) : bvs(w));
    varByName[name] = a;
    varIds[a] = varAst.size();
    varAst.push_back(a);
    varUndef.push_back(undef);
    return a;
  }
  const std::vector<uint32_t>& vars(Z3_ast a) {
    auto it = varMemo.find(a);
    if (it != varMemo.end()) return it->second;
    std::set<uint32_t> r;
    if (Z3_get_ast_kind(c, a) == Z3_APP_AST) {
      auto vi = varIds.find(a);
      if (vi != varIds.end())
        r.insert(vi->second);
      else {
        Z3_app app = Z3_to_app(c, a);
        unsigned n = Z3_get_app_num_args(c, app);
        for (unsigned i = 0; i < n; i++) {
          auto& x = vars(Z3_get_app_arg(c, app, i));
          r.insert(x.begin(), x.end());
        }
      }
    }
    return varMemo[a] = std::vector<uint32_t>(r.begin(), r.end());
  }
  bool hasUndef(Z3_ast a) {
    for (auto v : vars(a))
      if (varUndef[v]) return true;
    return false;
  }
  Z3_ast mkAnd(Z3_ast a, Z3_ast b) {
    if (a == tru || !a) return b;
    if (b == tru || !b) return a;
    if (a == fls || b == fls) return fls;
    if (a == b) return a;
    Z3_ast x[2] = {a, b};
    return Z3_mk_and(c, 2, x);
  }
  Z3_ast mkOr(Z3_ast a, Z3_ast b) {
    if (a == tru || b == tru) return tru;
    if (a == fls) return b;
    if (b == fls) return a;
    if (a == b) return a;
    Z3_ast x[2] = {a, b};
    return Z3_mk_or(c, 2, x);
  }
  Z3_ast mkNot(Z3_ast a) {
    if (a == tru) return fls;
    if (a == fls) return tru;
    if (Z3_get_ast_kind(c, a) == Z3_APP_AST) {
      Z3_app app = Z3_to_app(c, a);
      if (Z3_get_decl_kind(c, Z3_get_app_decl(c, app)) == Z3_OP_NOT) return Z3_get_app_arg(c, app, 0);
    }
    return Z3_mk_not(c, a);
  }
  // 1 sat, 0 unsat, -1 unknown.  Only conjuncts connected to 'extra' through shared variables are used when 'slice'.
  int check(const std::vector<Z3_ast>& D, Z3_ast extra, bool slice = true) {
    if (extra == fls) return 0;
    std::vector<Z3_ast> q;
    if (slice && extra != tru) {
      std::vector<char> used(D.size(), 0);
      std::unordered_set<uint32_t> vs;
      for (auto v : vars(extra)) vs.insert(v);
      bool ch = true;
      while (ch) {
        ch = false;
        for (size_t i = 0; i < D.size(); i++) {
          if (used[i]) continue;
          auto& dv = vars(D[i]);
          bool hit = false;
          for (auto v : dv)
            if (vs.count(v)) { hit = true; break; }
          if (hit) {
            used[i] = 1;
            ch = true;
            q.push_back(D[i]);
            for (auto v : dv) vs.insert(v);
          }
        }
      }
    } else
      q = D;
    if (extra != tru) q.push_back(extra);
    std::sort(q.begin(), q.end());
    q.erase(std::unique(q.begin(), q.end()), q.end());
    if (q.empty()) return 1;
    std::string key((const char*)q.data(), q.size() * sizeof(Z3_ast));
    auto it = cache.find(key);
    if (it != cache.end()) { cacheHits++; return it->second; }
    auto t0 = std::chrono::steady_clock::now();
    Z3_solver_reset(c, solver);
    for (auto a : q) Z3_solver_assert(c, solver, a);
    Z3_lbool r = Z3_solver_check(c, solver);
    solverTime += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    queries++;
    int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (res == 1) satN++; else if (res == 0) unsatN++; else unknowns++;
    if (res >= 0) cache[key] = res;
    return res;
  }
  // value of e under some model of D /\ extra
  bool modelValue(const std::vector<Z3_ast>& D, Z3_ast extra, Z3_ast e, unsigned w, uint64_t& out) {
    auto t0 = std::chrono::steady_clock::now();
    Z3_solver_reset(c, solver);
    for (auto a : D) Z3_solver_assert(c, solver, a);
    if (extra && extra != tru) Z3_solver_assert(c, solver, extra);
    Z3_lbool r = Z3_solver_check(c, solver);
    queries++;
    bool ok = false;
    if (r == Z3_L_TRUE) {
      satN++;
      Z3_model m = Z3_solver_get_model(c, solver);
      Z3_model_inc_ref(c, m);
      Z3_ast v = nullptr;
      if (Z3_model_eval(c, m, e, true, &v)) {
        V x = back(v, w);
        if (!x.sym()) { out = x.c; ok = true; }
      }
      Z3_model_dec_ref(c, m);
    } else if (r == Z3_L_FALSE) unsatN++; else unknowns++;
    solverTime += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    return ok;
  }
  bool model(const std::vector<Z3_ast>& D, Z3_ast extra, std::map<std::string, uint64_t>& out) {
    auto t0 = std::chrono::steady_clock::now();
    Z3_solver_reset(c, solver);
    for (auto a : D) Z3_solver_assert(c, solver, a);
    if (extra && extra != tru) Z3_solver_assert(c, solver, extra);
    Z3_lbool r = Z3_solver_check(c, solver);
    queries++;
    bool ok = r == Z3_L_TRUE;
    if (ok) {
      satN++;
      Z3_model m = Z3_solver_get_model(c, solver);
      Z3_model_inc_ref(c, m);
      unsigned n = Z3_model_get_num_consts(c, m);
      for (unsigned i = 0; i < n; i++) {
        Z3_func_decl d = Z3_model_get_const_decl(c, m, i);
        Z3_ast a = Z3_model_get_const_interp(c, m, d);
        std::string nm = Z3_get_symbol_string(c, Z3_get_decl_name(c, d));
        if (!a) continue;
        if (Z3_get_ast_kind(c, a) == Z3_NUMERAL_AST) {
          uint64_t x = 0;
          Z3_get_numeral_uint64(c, a, &x);
          out[nm] = x;
        } else out[nm] = Z3_get_bool_value(c, a) == Z3_L_TRUE;
      }
      Z3_model_dec_ref(c, m);
    } else if (r == Z3_L_FALSE) unsatN++; else unknowns++;
    solverTime += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    return ok;
  }

  // ---- operations -------------------------------------------------------------------------------------
  V zext(V a, unsigned from, unsigned to) {
    if (!a.sym()) return V(a.c & maskw(from));
    if (from == 1) return V(0, Z3_mk_ite(c, a.s, num(1, to), num(0, to)));
    return V(0, Z3_mk_zero_ext(c, to - from, a.s));
  }
  V sext(V a, unsigned from, unsigned to) {
    if (!a.sym()) return V((uint64_t)sextw(a.c, from) & maskw(to));
    if (from == 1) return V(0, Z3_mk_ite(c, a.s, num(maskw(to), to), num(0, to)));
    return V(0, Z3_mk_sign_ext(c, to - from, a.s));
  }
  V trunc(V a, unsigned from, unsigned to) {
    if (!a.sym()) return V(a.c & maskw(to));
    if (to == 1) return simp(Z3_mk_eq(c, Z3_mk_extract(c, 0, 0, a.s), num(1, 1)), 1);
    return simp(Z3_mk_extract(c, to - 1, 0, a.s), to);
  }
};
