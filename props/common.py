"""helpers shared by the property modules"""
from vlib import core, avm
from vlib.lang import *  # noqa: F401,F403
from vlib import lang
from vlib.lang import Int, Str, Var, Bin, Un, Op, CallF, Fld, ExprStmt, Exit, Decl, Asg, Prog, Note, tint, tbytes

UF_FIELDS = ["Fee", "FirstValid", "LastValid", "Amount", "TypeEnum", "XferAsset", "AssetAmount",
             "ConfigAsset", "ConfigAssetTotal", "ConfigAssetDecimals", "FreezeAsset", "NumAssets",
             "NumApplications", "GlobalNumUint", "GlobalNumByteSlice", "LocalNumUint"]
BF_FIELDS = ["Note", "ConfigAssetName", "ConfigAssetURL", "ConfigAssetUnitName", "VotePK", "SelectionPK", "TxID", "Lease",
             "StateProofPK", "ConfigAssetMetadataHash", "Type"]     # none has a size known to the compiler


def uin(i):
    """i-th arbitrary uint64 input"""
    return Fld("txn", UF_FIELDS[i])


def bin_(i):
    """i-th arbitrary byte-string input"""
    return Fld("txn", BF_FIELDS[i])


def put(key, e):
    """observable effect"""
    return ExprStmt(Op("app_global_put", [], [Str(key), e]))


def mark(i):
    return put("m", Int(i))


def prog(*stmts):
    return Prog([Note("#pragma version 8")] + list(stmts))


COMMON_ASSUMPTIONS = [
    "AVM opcode semantics are those of vlib/avm.py (uint64 arithmetic with overflow failure, byte strings up to 4096 "
    "bytes, scratch space, call stack, boxes, state/inner-transaction effects as an event trace); opcodes without an "
    "explicit model are uninterpreted functions of their operands, immediates and (for state reads) the state version",
    "program cost budgets, version gating and signature/hash contents are not modelled",
    "the textX expression parser runs on concrete text (symbolic integers travel as marker literals)",
]
