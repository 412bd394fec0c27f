"""Configurations of LSGen: which part of the language is explored how far."""

DEFAULT = dict(MaxOpen=3, MinOpen=0, MaxSections=1, MaxFancy=1, FancyGaps="GapsSmall", PlainGaps="GapPlain", Names="NamesSmall",
               Scalars="ScalarsSmall", Keys="KeysSmall", Rvalues="RvaluesSmall", Selectors="SelectorsSmall",
               MaxDepth=12, Pick="PickAll", Types='{"filter"}', CmpOps='{"==", "=~"}', BoolOps='{"and"}', Skip="{}",
               Emit="TRUE", INV="ReadBack LayoutKeeps PrefixDies Printed")
COND = '"rvalue", "selector", "condarray", "par", "bang", "cmp", "in", "not", "bool"'

# exhaustively explored, by name: quick and thorough parameters
FULL = {
    "sections": (dict(Types='{"input", "output"}', MaxSections=3, MaxOpen=2, MaxFancy=2, FancyGaps="GapsSections", Skip='{"plugin", "if"}'),
                 dict(Types="TypesAll", MaxSections=3, MaxOpen=3, MaxFancy=2, FancyGaps="GapsLarge", Skip='{"plugin", "if"}')),
    "attributes": (dict(MaxOpen=4, MaxFancy=1, FancyGaps="GapsLarge", Skip='{"if", "array", "hash", "codec"}'),
                   dict(MaxOpen=5, MaxFancy=2, FancyGaps="GapsSmall", Skip='{"if", "array", "hash", "codec"}')),
    "values": (dict(MaxOpen=6, MaxFancy=0, Skip='{"if"}'),
               dict(MaxOpen=7, MaxFancy=1, Scalars="ScalarsOne", Skip='{"if"}')),
    "arrays": (dict(MaxOpen=5, MaxFancy=1, FancyGaps="GapsLarge", Scalars="ScalarsOne", Skip='{"if", "hash", "codec"}'),
               dict(MaxOpen=6, MaxFancy=1, FancyGaps="GapsLarge", Skip='{"if", "hash", "codec"}')),
    "hashes": (dict(MaxOpen=5, MaxFancy=1, FancyGaps="GapsLarge", Scalars="ScalarsOne", Skip='{"if", "array", "codec"}'),
               dict(MaxOpen=6, MaxFancy=2, Skip='{"if", "array", "codec"}')),
    "literals": (dict(MaxOpen=3, MaxFancy=0, Scalars="ScalarsLarge", Names="NamesLarge", Skip='{"if", "array", "hash", "codec"}'),
                 dict(MaxOpen=4, MaxFancy=0, Scalars="ScalarsLarge", Names="NamesLarge", Keys="KeysLarge", Skip='{"if"}')),
    "conditions": (dict(MaxOpen=2, MaxFancy=1, CmpOps="CmpAll", BoolOps="BoolAll", FancyGaps="GapsLarge",
                        Skip='{"plugin", "else", "condarray"}'),
                   dict(MaxOpen=3, MaxFancy=1, CmpOps='{"<=", "!~"}', BoolOps='{"or"}', Skip='{"plugin", "else"}')),
    "expressions": (dict(MaxOpen=3, MaxFancy=0, CmpOps='{"<", "!~"}', BoolOps='{"xor"}', Skip='{"plugin", "else"}'),
                    dict(MaxOpen=4, MaxFancy=0, CmpOps='{"==", "=~"}', BoolOps='{"nand"}', Skip='{"plugin", "else"}')),
    "operands": (dict(MaxOpen=2, MaxFancy=0, CmpOps="CmpAll", Rvalues="RvaluesLarge", Selectors="SelectorsLarge",
                      Skip='{"plugin", "else", "bool"}'),
                 dict(MaxOpen=3, MaxFancy=0, CmpOps='{"!=", "=~"}', Rvalues="RvaluesLarge", Selectors="SelectorsLarge",
                      Skip='{"plugin", "else", "bool", "condarray"}')),
    "branches": (dict(MaxOpen=4, MaxFancy=1, Skip='{"attr", "rvalue", "condarray", "par", "bang", "cmp", "in", "not", "bool"}'),
                 dict(MaxOpen=6, MaxFancy=1, Skip='{"attr", "rvalue", "condarray", "par", "bang", "cmp", "in", "not", "bool"}')),
}

LARGE = dict(MaxSections=99, FancyGaps="GapsLarge", Names="NamesLarge", Scalars="ScalarsLarge", Keys="KeysLarge", Rvalues="RvaluesLarge",
             Selectors="SelectorsLarge", Types="TypesAll", CmpOps="CmpAll", BoolOps="BoolAll", Pick="PickOne",
             INV="ReadBack LayoutKeeps Printed")
# random behaviours: (parameters, share)
RANDOM = [
    dict(LARGE, MaxOpen=18, MinOpen=12, MaxFancy=6),
    dict(LARGE, MaxOpen=14, MinOpen=10, MaxFancy=99),
    dict(LARGE, MaxOpen=30, MinOpen=24, MaxFancy=3),
    dict(LARGE, MaxOpen=10, MinOpen=6, MaxFancy=99, MaxDepth=20),
    dict(LARGE, MaxOpen=16, MinOpen=12, MaxFancy=5, Skip='{"if"}'),
    dict(LARGE, MaxOpen=12, MinOpen=9, MaxFancy=99, Skip='{"if"}'),
    dict(LARGE, MaxOpen=16, MinOpen=12, MaxFancy=5, Skip='{"plugin"}'),
    dict(LARGE, MaxOpen=14, MinOpen=10, MaxFancy=99, Skip='{"attr"}'),
]


def cfg(over, base=DEFAULT):
    p = dict(base)
    p.update(over)
    inv = p.pop("INV")
    lines = ["SPECIFICATION Spec", "CONSTANTS"]
    for k, v in p.items():
        named = isinstance(v, str) and v[0].isalpha() and v not in ("TRUE", "FALSE")
        lines.append(" %s %s %s" % (k, "<-" if named else "=", v))
    lines.append("INVARIANT " + inv)
    return "\n".join(lines) + "\n"
