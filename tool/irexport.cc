// irexport: dump an LLVM module as JSON for the Python analyser.
// Built on every check from this file against the installed LLVM 18.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include <map>
using namespace llvm;
static const DataLayout *DL;
static std::map<std::string,int> locIds;
static std::vector<std::string> locTab;

static std::string tyStr (Type *t)
{
  if (t->isVoidTy()) return "void";
  if (t->isIntegerTy()) return "i" + std::to_string (t->getIntegerBitWidth());
  if (t->isFloatTy()) return "f32";
  if (t->isDoubleTy()) return "f64";
  if (t->isPointerTy()) return "ptr";
  if (auto *v = dyn_cast<FixedVectorType> (t))
    return "v" + std::to_string (v->getNumElements()) + tyStr (v->getElementType());
  if (t->isStructTy()) return "struct";
  if (t->isArrayTy()) return "array";
  return "other";
}

static json::Value constVal (Constant *c);

static void flatten (Constant *c, uint64_t off, json::Array& out)
{
  Type *t = c->getType();
  if (isa<ConstantAggregateZero> (c)) { out.push_back (json::Array { off, "z", (int64_t) DL->getTypeStoreSize (t) }); return; }
  if (isa<UndefValue> (c)) return;
  if (auto *s = dyn_cast<ConstantStruct> (c))
    {
      auto *sl = DL->getStructLayout (cast<StructType> (t));
      for (unsigned i = 0; i < s->getNumOperands(); i++) flatten (s->getOperand (i), off + sl->getElementOffset (i).getFixedValue(), out);
      return;
    }
  if (auto *a = dyn_cast<ConstantArray> (c))
    {
      uint64_t es = DL->getTypeAllocSize (cast<ArrayType> (t)->getElementType());
      for (unsigned i = 0; i < a->getNumOperands(); i++) flatten (a->getOperand (i), off + i * es, out);
      return;
    }
  if (auto *a = dyn_cast<ConstantDataSequential> (c))
    {
      uint64_t es = a->getElementByteSize();
      for (unsigned i = 0; i < a->getNumElements(); i++) flatten (a->getElementAsConstant (i), off + i * es, out);
      return;
    }
  if (auto *a = dyn_cast<ConstantVector> (c))
    {
      uint64_t es = DL->getTypeAllocSize (cast<VectorType> (t)->getElementType());
      for (unsigned i = 0; i < a->getNumOperands(); i++) flatten (a->getOperand (i), off + i * es, out);
      return;
    }
  out.push_back (json::Array { off, tyStr (t), constVal (c) });
}

static json::Value constVal (Constant *c)
{
  Type *t = c->getType();
  if (auto *i = dyn_cast<ConstantInt> (c))
    {
      if (i->getBitWidth() <= 64) return json::Object { { "i", i->getSExtValue() } };
      return json::Object { { "u", 1 } };
    }
  if (auto *f = dyn_cast<ConstantFP> (c))
    {
      double d;
      if (t->isFloatTy()) d = f->getValueAPF().convertToFloat();
      else if (t->isDoubleTy()) d = f->getValueAPF().convertToDouble();
      else return json::Object { { "u", 1 } };
      char buf[64]; snprintf (buf, sizeof buf, "%.17g", d);
      return json::Object { { "f", std::string (buf) } };
    }
  if (isa<ConstantPointerNull> (c)) return json::Object { { "null", 1 } };
  if (isa<PoisonValue> (c) || isa<UndefValue> (c)) return json::Object { { "u", 1 } };
  if (auto *al = dyn_cast<GlobalAlias> (c)) return constVal (al->getAliasee());
  if (auto *g = dyn_cast<GlobalValue> (c)) return json::Object { { "g", g->getName().str() }, { "o", 0 } };
  if (auto *g = dyn_cast<GEPOperator> (c))
    {
      APInt off (64, 0);
      if (g->accumulateConstantOffset (*DL, off))
        {
          json::Value b = constVal (cast<Constant> (g->getPointerOperand()));
          if (auto *o = b.getAsObject())
            if (o->get ("g"))
              {
                int64_t o0 = *o->getInteger ("o");
                return json::Object { { "g", o->getString ("g")->str() }, { "o", o0 + off.getSExtValue() } };
              }
        }
      return json::Object { { "u", 1 } };
    }
  if (auto *ce = dyn_cast<ConstantExpr> (c))
    {
      if (ce->isCast()) return constVal (ce->getOperand (0));
      return json::Object { { "u", 1 } };
    }
  if (t->isVectorTy())
    {
      auto *v = cast<FixedVectorType> (t);
      json::Array a;
      for (unsigned i = 0; i < v->getNumElements(); i++)
        {
          Constant *e = c->getAggregateElement (i);
          a.push_back (e ? constVal (e) : json::Value (json::Object { { "u", 1 } }));
        }
      return json::Object { { "v", std::move (a) } };
    }
  if (isa<ConstantAggregateZero> (c)) return json::Object { { "zs", 1 } };
  return json::Object { { "u", 1 } };
}

static std::map<const Value *, int> ids;
static json::Value opnd (Value *v)
{
  if (auto *c = dyn_cast<Constant> (v)) return constVal (c);
  auto it = ids.find (v);
  if (it != ids.end()) return it->second;
  return json::Object { { "u", 1 } };
}

static int locOf (const Instruction& I)
{
  const DILocation *l = I.getDebugLoc().get();
  if (!l) return -1;
  std::string s;
  for (const DILocation *x = l; x; x = x->getInlinedAt())
    {
      std::string fn;
      if (auto *sp = x->getScope()->getSubprogram()) fn = sp->getName().str();
      std::string f = x->getFilename().str();
      if (!s.empty()) s += "|";
      s += f + ":" + std::to_string (x->getLine()) + ":" + fn;
    }
  auto it = locIds.find (s);
  if (it != locIds.end()) return it->second;
  int id = locTab.size(); locTab.push_back (s); locIds[s] = id;
  return id;
}

static std::string linkStr (const GlobalValue& g)
{
  if (g.hasExternalLinkage()) return "external";
  if (g.hasInternalLinkage() || g.hasPrivateLinkage()) return "internal";
  if (g.hasLinkOnceLinkage()) return "linkonce";
  if (g.hasWeakLinkage()) return "weak";
  if (g.hasAvailableExternallyLinkage()) return "avail";
  return "other";
}

int main (int argc, char **argv)
{
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile (argv[1], err, ctx);
  if (!M) { err.print (argv[0], errs()); return 1; }
  DL = &M->getDataLayout();
  bool bodies = argc < 3 || std::string (argv[2]) != "--summary";
  json::Object root;
  json::Array globals;
  for (auto& g : M->globals())
    {
      json::Object o { { "name", g.getName().str() }, { "dem", demangle (g.getName().str()) }, { "const", g.isConstant() }, { "link", linkStr (g) },
        { "tls", g.isThreadLocal() }, { "decl", g.isDeclaration() } };
      if (g.getValueType()->isSized()) { o["size"] = (int64_t) DL->getTypeAllocSize (g.getValueType()).getFixedValue(); }
      o["align"] = (int64_t) g.getAlign().valueOrOne().value();
      if (g.hasInitializer()) { json::Array a; flatten (g.getInitializer(), 0, a); o["init"] = std::move (a); }
      globals.push_back (std::move (o));
    }
  root["globals"] = std::move (globals);
  json::Array funcs;
  for (auto& F : *M)
    {
      ids.clear();
      json::Object fo { { "name", F.getName().str() }, { "dem", demangle (F.getName().str()) }, { "link", linkStr (F) }, { "decl", F.isDeclaration() },
        { "comdat", F.hasComdat() }, { "noreturn", F.doesNotReturn() }, { "ret", tyStr (F.getReturnType()) } };
      if (auto *sp = F.getSubprogram()) { fo["file"] = sp->getFilename().str(); fo["line"] = (int64_t) sp->getLine(); fo["sname"] = sp->getName().str(); }
      int n = 0;
      json::Array args;
      for (auto& a : F.args()) { ids[&a] = n++; json::Object ao { { "ty", tyStr (a.getType()) }, { "sret", a.hasStructRetAttr() }, { "zext", a.hasZExtAttr() } };
          args.push_back (std::move (ao)); }
      fo["args"] = std::move (args);
      if (!F.isDeclaration())
        {
          std::map<const BasicBlock *, int> bid; int nb = 0;
          for (auto& B : F) bid[&B] = nb++;
          for (auto& B : F) for (auto& I : B) if (!I.getType()->isVoidTy()) ids[&I] = n++;
          json::Array blocks;
          for (auto& B : F)
            {
              json::Array ins;
              for (auto& I : B)
                {
                  if (isa<DbgInfoIntrinsic> (I)) continue;
                  json::Object o;
                  std::string op = I.getOpcodeName();
                  o["op"] = op;
                  if (!I.getType()->isVoidTy()) { o["id"] = ids[&I]; o["ty"] = tyStr (I.getType()); }
                  int l = locOf (I); if (l >= 0) o["l"] = l;
                  if (auto *p = dyn_cast<PHINode> (&I))
                    {
                      json::Array inc;
                      for (unsigned i = 0; i < p->getNumIncomingValues(); i++)
                        inc.push_back (json::Array { bid[p->getIncomingBlock (i)], opnd (p->getIncomingValue (i)) });
                      o["inc"] = std::move (inc);
                    }
                  else if (auto *b = dyn_cast<BranchInst> (&I))
                    {
                      if (b->isConditional()) { o["c"] = opnd (b->getCondition()); o["t"] = json::Array { bid[b->getSuccessor (0)], bid[b->getSuccessor (1)] }; }
                      else o["t"] = json::Array { bid[b->getSuccessor (0)] };
                    }
                  else if (auto *s = dyn_cast<SwitchInst> (&I))
                    {
                      o["c"] = opnd (s->getCondition()); o["cty"] = tyStr (s->getCondition()->getType());
                      o["d"] = bid[s->getDefaultDest()];
                      json::Array cs;
                      for (auto& c : s->cases()) cs.push_back (json::Array { c.getCaseValue()->getSExtValue(), bid[c.getCaseSuccessor()] });
                      o["cases"] = std::move (cs);
                    }
                  else if (auto *cb = dyn_cast<CallBase> (&I))
                    {
                      if (Function *cf = dyn_cast<Function> (cb->getCalledOperand()->stripPointerCastsAndAliases())) o["f"] = cf->getName().str();
                      else { o["fp"] = opnd (cb->getCalledOperand()); if (cb->isInlineAsm()) o["asm"] = 1; }
                      json::Array as;
                      for (auto& a : cb->args())
                        {
                          if (a->getType()->isMetadataTy()) { as.push_back (json::Object { { "u", 1 } }); continue; }
                          as.push_back (opnd (a));
                        }
                      o["a"] = std::move (as);
                      if (cb->doesNotReturn()) o["nr"] = 1;
                      if (auto *iv = dyn_cast<InvokeInst> (cb)) { o["t"] = json::Array { bid[iv->getNormalDest()] }; o["u"] = bid[iv->getUnwindDest()]; }
                      json::Array ats; for (auto& a : cb->args()) ats.push_back (tyStr (a->getType()));
                      o["at"] = std::move (ats);
                    }
                  else if (auto *g = dyn_cast<GetElementPtrInst> (&I))
                    {
                      o["b"] = opnd (g->getPointerOperand());
                      int64_t coff = 0; json::Array terms; bool ok = true;
                      for (auto gt = gep_type_begin (g), ge = gep_type_end (g); gt != ge; ++gt)
                        {
                          Value *ix = gt.getOperand();
                          if (StructType *st = gt.getStructTypeOrNull())
                            coff += DL->getStructLayout (st)->getElementOffset (cast<ConstantInt> (ix)->getZExtValue()).getFixedValue();
                          else
                            {
                              uint64_t sz = DL->getTypeAllocSize (gt.getIndexedType()).getFixedValue();
                              if (auto *ci = dyn_cast<ConstantInt> (ix)) coff += (int64_t) sz * ci->getSExtValue();
                              else if (ix->getType()->isVectorTy()) ok = false;
                              else terms.push_back (json::Array { opnd (ix), (int64_t) sz, tyStr (ix->getType()) });
                            }
                        }
                      o["o"] = coff; o["x"] = std::move (terms); if (!ok) o["bad"] = 1;
                    }
                  else if (auto *ld = dyn_cast<LoadInst> (&I))
                    { o["p"] = opnd (ld->getPointerOperand()); o["al"] = (int64_t) ld->getAlign().value(); o["sz"] = (int64_t) DL->getTypeStoreSize (ld->getType()).getFixedValue(); if (ld->isAtomic()) o["atomic"] = 1; }
                  else if (auto *st = dyn_cast<StoreInst> (&I))
                    { o["p"] = opnd (st->getPointerOperand()); o["v"] = opnd (st->getValueOperand()); o["vty"] = tyStr (st->getValueOperand()->getType());
                      o["al"] = (int64_t) st->getAlign().value(); o["sz"] = (int64_t) DL->getTypeStoreSize (st->getValueOperand()->getType()).getFixedValue(); }
                  else if (auto *al = dyn_cast<AllocaInst> (&I))
                    { o["esz"] = (int64_t) DL->getTypeAllocSize (al->getAllocatedType()).getFixedValue(); o["n"] = opnd (al->getArraySize()); o["al"] = (int64_t) al->getAlign().value(); o["nty"] = tyStr (al->getArraySize()->getType()); }
                  else if (auto *cm = dyn_cast<CmpInst> (&I))
                    { o["pr"] = CmpInst::getPredicateName (cm->getPredicate()).str(); o["oty"] = tyStr (cm->getOperand (0)->getType());
                      o["a"] = json::Array { opnd (cm->getOperand (0)), opnd (cm->getOperand (1)) }; }
                  else if (auto *sv = dyn_cast<ShuffleVectorInst> (&I))
                    {
                      json::Array m; for (int x : sv->getShuffleMask()) m.push_back (x);
                      o["a"] = json::Array { opnd (sv->getOperand (0)), opnd (sv->getOperand (1)) }; o["m"] = std::move (m);
                      o["nl"] = (int64_t) cast<FixedVectorType> (sv->getOperand (0)->getType())->getNumElements();
                    }
                  else if (auto *ev = dyn_cast<ExtractValueInst> (&I))
                    { o["a"] = json::Array { opnd (ev->getOperand (0)) }; json::Array m; for (unsigned x : ev->getIndices()) m.push_back ((int64_t) x); o["m"] = std::move (m); }
                  else if (auto *iv = dyn_cast<InsertValueInst> (&I))
                    { o["a"] = json::Array { opnd (iv->getOperand (0)), opnd (iv->getOperand (1)) }; json::Array m; for (unsigned x : iv->getIndices()) m.push_back ((int64_t) x); o["m"] = std::move (m); }
                  else
                    {
                      json::Array as, ats;
                      for (auto& u : I.operands()) { if (isa<BasicBlock> (u) ) continue; as.push_back (opnd (u)); ats.push_back (tyStr (u->getType())); }
                      o["a"] = std::move (as); o["at"] = std::move (ats);
                      if (auto *ob = dyn_cast<PossiblyExactOperator> (&I)) if (ob->isExact()) o["exact"] = 1;
                    }
                  ins.push_back (std::move (o));
                }
              blocks.push_back (std::move (ins));
            }
          if (bodies)
            {
              fo["blocks"] = std::move (blocks);
              DominatorTree DT (F); LoopInfo LI (DT);
              json::Array loops;
              for (auto *L : LI.getLoopsInPreorder())
                {
                  json::Array bl; for (auto *B : L->blocks()) bl.push_back (bid[B]);
                  loops.push_back (json::Object { { "h", bid[L->getHeader()] }, { "b", std::move (bl) }, { "depth", (int64_t) L->getLoopDepth() } });
                }
              fo["loops"] = std::move (loops);
              bool irreducible = false; (void) irreducible;
            }
        }
      funcs.push_back (std::move (fo));
    }
  root["functions"] = std::move (funcs);
  json::Array aliases;
  for (auto& a : M->aliases())
    aliases.push_back (json::Object { { "name", a.getName().str() }, { "dem", demangle (a.getName().str()) }, { "link", linkStr (a) }, { "of", a.getAliaseeObject() ? a.getAliaseeObject()->getName().str() : "" } });
  root["aliases"] = std::move (aliases);
  json::Array lt; for (auto& s : locTab) lt.push_back (s);
  root["locs"] = std::move (lt);
  outs() << json::Value (std::move (root)) << "\n";
  return 0;
}
