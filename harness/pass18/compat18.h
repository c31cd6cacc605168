#pragma once
#include "llvm/IR/AttributeMask.h"
#include "llvm/IR/Attributes.h"
#include "llvm/IR/DerivedTypes.h"
#include "llvm/Analysis/DomTreeUpdater.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
namespace llvm {
static inline MaybeAlign operator*(MaybeAlign A, unsigned N){ return A ? MaybeAlign(A->value()*N) : MaybeAlign(); }
static inline Instruction *SplitBlockAndInsertIfThen(Value *C, Instruction *B, bool U, MDNode *W, DominatorTree *DT){
  DomTreeUpdater D(DT, DomTreeUpdater::UpdateStrategy::Eager);
  return SplitBlockAndInsertIfThen(C, B, U, W, &D);
}
}

struct PtMemMask : llvm::AttributeMask { PtMemMask(){ addAttribute(llvm::Attribute::Memory); } };
