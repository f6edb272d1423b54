// Random programs over the protocol API, with a plaintext ring oracle.
#pragma once
#include <optional>
#include "world.h"

namespace h {
struct Op {
  std::string name;
  std::vector<int> in;          // register numbers
  std::vector<int64_t> p;       // parameters
  std::vector<int64_t> shape;   // result shape
  Ten vals;                     // inputs only
  int mag = 0;                  // signed magnitude bound (bits) of the result
  std::vector<std::vector<spu::NdArrayRef>> shares;  // inputs given as shares, per party
};
struct ProgOpt {
  int min_ops = 3, max_ops = 10;
  bool shapes = true, trunc = true, rnd = true, boolean = true, perm = true, cmp = true;
  int64_t max_numel = 24;
  bool big = true;              // now and then larger tensors
  double p_long = 0;            // how often one-dimensional of 90 to 300 elements
  bool privates = true;
  bool exact_only = false;      // no operations with bounded error or fresh randomness in the result
  std::vector<int64_t> fixed;   // every tensor has this shape
  std::vector<std::string> only;
};
struct Prog {
  std::vector<Op> ops;          // op i defines register i; skipped ones are empty
  std::vector<bool> dead;
  std::string str() const;
};
Prog gen_prog(Run& r, const Spec& s, const ProgOpt& o, const std::string& px = "");
// Fills in shares for inputs that arrive as shares (client side).
void deal_inputs(const Spec& s, Prog& p);

struct RegOut { bool present = false; Ten v; std::vector<int64_t> shape; char vis = '?'; std::string type; };
struct ProgRun {
  std::vector<std::optional<spu::Value>> regs;
};
// Runs operation i of the program on one party.
void exec_op(spu::SPUContext* ctx, const Spec& s, const Prog& p, int i, int rank, ProgRun& st);
void exec_prog(spu::SPUContext* ctx, const Spec& s, const Prog& p, int rank, ProgRun& st);
RegOut reveal_reg(spu::SPUContext* ctx, const std::optional<spu::Value>& v);
std::vector<RegOut> reveal_all(spu::SPUContext* ctx, const Prog& p, ProgRun& st);
// Checks every register of every party against the plaintext model.
void check_prog(Run& r, const Spec& s, const Prog& p, const std::vector<std::vector<RegOut>>& out, const std::string& what = "");
// The plaintext model of one operation; nullopt when it is not a function of its inputs.
std::optional<Ten> ref_op(const Spec& s, const Op& op, const std::vector<const Ten*>& in, const std::vector<const std::vector<int64_t>*>& shp, bool pub_trunc = false);
}  // namespace h
