// A small stand-in for the parts of MLIR's in-memory IR that the block executor uses
// (MLIR itself is not available here): operations with operands, results, attributes and
// nested single-block regions.
#pragma once
#include <cstdint>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <queue>
#include <string>
#include <vector>
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/ADT/StringRef.h"
#include "llvm/Support/Casting.h"

namespace mlir {
class Operation;
class Region;
class Block;
struct ValueImpl { Operation* def = nullptr; unsigned index = 0; };
class Value {
 public:
  Value() = default;
  explicit Value(ValueImpl* i) : impl_(i) {}
  bool operator==(const Value& o) const { return impl_ == o.impl_; }
  bool operator!=(const Value& o) const { return impl_ != o.impl_; }
  explicit operator bool() const { return impl_ != nullptr; }
  Operation* getDefiningOp() const { return impl_->def; }
  ValueImpl* getImpl() const { return impl_; }
 protected:
  ValueImpl* impl_ = nullptr;
};
class BlockArgument : public Value {
 public:
  using Value::Value;
  unsigned getArgNumber() const { return impl_->index; }
};
class Type {};
class BoolAttr {
 public:
  BoolAttr() = default;
  explicit BoolAttr(bool v) : set_(true), v_(v) {}
  explicit operator bool() const { return set_; }
  bool getValue() const { return v_; }
 private:
  bool set_ = false, v_ = false;
};
class ValueList {
 public:
  ValueList() = default;
  explicit ValueList(const std::vector<Value>* v) : v_(v) {}
  auto begin() const { return v_->begin(); }
  auto end() const { return v_->end(); }
  size_t size() const { return v_->size(); }
  bool empty() const { return v_->empty(); }
  Value operator[](size_t i) const { return (*v_)[i]; }
 private:
  const std::vector<Value>* v_ = nullptr;
};
using OperandRange = ValueList;
using ResultRange = ValueList;

class Block {
 public:
  using Ops = std::list<std::unique_ptr<Operation>>;
  class iterator {
   public:
    using iterator_category = std::forward_iterator_tag;
    using value_type = Operation; using difference_type = std::ptrdiff_t; using pointer = Operation*; using reference = Operation&;
    explicit iterator(Ops::iterator i) : i_(i) {}
    Operation& operator*() const { return **i_; }
    Operation* operator->() const { return i_->get(); }
    iterator& operator++() { ++i_; return *this; }
    bool operator==(const iterator& o) const { return i_ == o.i_; }
    bool operator!=(const iterator& o) const { return i_ != o.i_; }
   private:
    Ops::iterator i_;
  };
  struct range { iterator b, e; iterator begin() const { return b; } iterator end() const { return e; } };
  iterator begin() { return iterator(ops.begin()); }
  iterator end() { return iterator(ops.end()); }
  range without_terminator() { return {iterator(ops.begin()), iterator(std::prev(ops.end()))}; }
  Operation* getTerminator() { return ops.empty() ? nullptr : ops.back().get(); }
  Ops ops;  // the last one is the terminator
};
class Region {
 public:
  unsigned getNumArguments() const { return static_cast<unsigned>(args.size()); }
  const std::vector<BlockArgument>& getArguments() const { return arg_values; }
  unsigned getRegionNumber() const { return 0; }
  bool hasOneBlock() const { return true; }
  Block& front() { return block; }
  template <typename F> void walk(F&& f);
  BlockArgument add_argument() {
    args.push_back(std::make_unique<ValueImpl>(ValueImpl{nullptr, static_cast<unsigned>(args.size())}));
    arg_values.emplace_back(args.back().get());
    return arg_values.back();
  }
  Operation* append(int id, const std::vector<Value>& operands, unsigned results);
  Block block;
  std::vector<std::unique_ptr<ValueImpl>> args;
  std::vector<BlockArgument> arg_values;
};
class Operation {
 public:
  unsigned getNumRegions() const { return static_cast<unsigned>(regions.size()); }
  std::vector<Region>& getRegions() { return regions; }
  Region& getRegion(unsigned i) { return regions[i]; }
  Region* getParentRegion() { return parent; }
  OperandRange getOperands() const { return OperandRange(&operands); }
  unsigned getNumOperands() const { return static_cast<unsigned>(operands.size()); }
  ResultRange getResults() const { return ResultRange(&result_values); }
  unsigned getNumResults() const { return static_cast<unsigned>(result_values.size()); }
  Value getResult(unsigned i) const { return result_values[i]; }
  template <typename A> A getAttrOfType(const char* n) const { auto it = attrs.find(n); return it == attrs.end() ? A() : A(it->second); }
  int id = 0;                 // meaning is up to the interpreter
  std::string call_target;    // set for custom calls
  std::map<std::string, bool> attrs;
  std::vector<Value> operands, result_values;
  std::vector<std::unique_ptr<ValueImpl>> results;
  std::vector<Region> regions;
  Region* parent = nullptr;
};
inline Operation* Region::append(int id, const std::vector<Value>& operands, unsigned results) {
  auto op = std::make_unique<Operation>();
  op->id = id; op->operands = operands; op->parent = this;
  for (unsigned i = 0; i < results; ++i) {
    op->results.push_back(std::make_unique<ValueImpl>(ValueImpl{op.get(), i}));
    op->result_values.emplace_back(op->results.back().get());
  }
  block.ops.push_back(std::move(op));
  return block.ops.back().get();
}
template <typename F> void Region::walk(F&& f) {
  for (auto& op : block.ops) {
    for (auto& r : op->getRegions()) r.walk(f);
    f(op.get());
  }
}
}  // namespace mlir

namespace mlir::spu::pphlo {
class CustomCallOp {
 public:
  CustomCallOp() = default;
  explicit CustomCallOp(Operation* o) : op_(o) {}
  explicit operator bool() const { return op_ != nullptr; }
  llvm::StringRef getCallTargetName() const { return op_->call_target; }
  static bool classof(const Operation* o) { return !o->call_target.empty(); }
 private:
  Operation* op_ = nullptr;
};
}  // namespace mlir::spu::pphlo

namespace llvm {
template <> struct DenseMapInfo<mlir::Value> {
  static mlir::Value getEmptyKey() { return mlir::Value(DenseMapInfo<mlir::ValueImpl*>::getEmptyKey()); }
  static mlir::Value getTombstoneKey() { return mlir::Value(DenseMapInfo<mlir::ValueImpl*>::getTombstoneKey()); }
  static unsigned getHashValue(mlir::Value v) { return DenseMapInfo<mlir::ValueImpl*>::getHashValue(v.getImpl()); }
  static bool isEqual(mlir::Value a, mlir::Value b) { return a == b; }
};
template <> struct CastInfo<mlir::spu::pphlo::CustomCallOp, mlir::Operation> {
  using To = mlir::spu::pphlo::CustomCallOp;
  static bool isPossible(mlir::Operation& o) { return To::classof(&o); }
  static To doCast(mlir::Operation& o) { return To(&o); }
  static To castFailed() { return To(); }
  static To doCastIfPossible(mlir::Operation& o) { return isPossible(o) ? doCast(o) : castFailed(); }
};
}  // namespace llvm
