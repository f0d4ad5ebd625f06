"""What each check runs: exhaustive exploration of the specification ("model") and observations of
the real code that TLC compares with it ("obs")."""

FILES = "/verif"


def theory(mode, props="Deterministic Lossless Stable SpansIn"):
    return {"kind": "model", "name": f"grammar theory ({mode})", "module": "ParseTheory", "cfg": f"ParseTheory_{mode}.cfg"}


def obs(name, args, module, what=None, **kw):
    return {"kind": "obs", "name": name, "args": args, "module": module, "env": {"WHAT": what or "", **kw.pop("env", {})}, **kw}


PARSE_ASSUME = [
    "The HCL grammar, decor placement and encoding of spec/HclParser.tla and spec/HclEncode.tla are the oracle",
    "Texts of bounded nesting: inputs nested deep enough to exhaust the stack are out of scope",
]

CHECKS = {
    "P01": {"stages": [
        theory("expr3"), theory("body3"), theory("tpl3"),
        obs("texts re-encoded", ["parse", "--what", "full"], "ParseCheck", "enc"),
        obs("single texts, no respelling allowed", ["probe", "--what", "full", "--in", "corpus/respelled.txt"], "ParseCheck", "ideal"),
        obs("single texts, meaning kept", ["probe", "--what", "full", "--in", "corpus/unwritable.txt"], "ParseCheck", "same"),
    ], "assumptions": PARSE_ASSUME},
    "P02": {"stages": [
        obs("syntax trees", ["parse", "--what", "ast"], "ParseCheck", "ast"),
        obs("fixed texts", ["probe", "--what", "ast", "--in", "corpus/texts.txt"], "ParseCheck", "ast"),
    ], "assumptions": PARSE_ASSUME},
    "P03": {"stages": [
        theory("expr3"), theory("body3"), theory("tpl3"),
        obs("accepted or rejected", ["parse", "--what", "accept"], "ParseCheck", "accept"),
        obs("fixed texts", ["probe", "--what", "ast", "--in", "corpus/texts.txt"], "ParseCheck", "accept"),
    ], "assumptions": PARSE_ASSUME},
    "P04": {"stages": [
        obs("decor and spans", ["parse", "--what", "full"], "ParseCheck", "decor"),
    ], "assumptions": PARSE_ASSUME},
    "P05": {"stages": [
        obs("error locations", ["parse", "--what", "errors"], "ParseCheck", "errpos"),
    ], "assumptions": PARSE_ASSUME},
}

EDIT_ASSUME = PARSE_ASSUME + ["Decor which a user sets is whitespace or complete comments"]


def edits(p, *palettes):
    r = []
    for q in palettes:
        r += [
            {"kind": "model", "name": f"all histories ({q}), one longer", "module": "EditModel", "cfg": f"EditModel_{q}3.cfg", "tiers": ("thorough",)},
            {"kind": "obs", "name": f"histories of the specification replayed ({q})", "args": ["edit", "--what", p], "module": "EditTrace",
             "generate": {"module": "EditModel", "cfg": f"EditModel_{q}.cfg"}, "env": {"GEN": "1"}},
        ]
    return r + [obs("random histories", ["edit", "--what", p], "EditTrace")]


CHECKS["P06"] = {"stages": edits("body", "body"), "assumptions": EDIT_ASSUME}
CHECKS["P07"] = {"stages": edits("expr", "expr", "tpl"), "assumptions": EDIT_ASSUME}

RS_ASSUME = ["The layout rules of spec/HclFormat.tla and the grammar of spec/HclParser.tla are the oracle",
             "Trees are those which parsing yields, with strings, keys and labels replaced by arbitrary ones, and arbitrary values"]
CHECKS["P09"] = {"stages": [obs("formatted and parsed again", ["format"], "RsCheck", "meaning")], "assumptions": RS_ASSUME}
CHECKS["P10"] = {"stages": [obs("formatted", ["format"], "RsCheck", "layout")], "assumptions": RS_ASSUME}
CHECKS["P21"] = {"stages": [obs("converted", ["convert"], "RsCheck", "convert")], "assumptions": RS_ASSUME}
CHECKS["P24"] = {"stages": [obs("written without decor and parsed again", ["convert"], "RsCheck", "kept")], "assumptions": RS_ASSUME}
CHECKS["P18"] = {"stages": [obs("numbers, their operators and literals", ["numbers"], "NumCheck")],
                 "assumptions": ["The exact big number arithmetic and rounding of spec/HclBig.tla and spec/HclFloat.tla are the oracle"]}

EVAL_ASSUME = ["The evaluation rules of spec/HclEval.tla are the oracle",
               "Functions of the context are of two kinds: one returns all its arguments, one fails"]
CHECKS["P14"] = {"stages": [obs("expressions and bodies evaluated", ["eval", "--what", "expr"], "EvalCheck", "eval")], "assumptions": EVAL_ASSUME}
CHECKS["P15"] = {"stages": [obs("function calls evaluated", ["eval", "--what", "fn"], "EvalCheck", "eval")], "assumptions": EVAL_ASSUME}
CHECKS["P16"] = {"stages": [obs("templates evaluated", ["eval", "--what", "tpl"], "EvalCheck", "eval")], "assumptions": EVAL_ASSUME}
CHECKS["P17"] = {"stages": [obs("expressions and bodies evaluated in place", ["eval", "--what", "expr"], "EvalCheck", "in"),
                            obs("function calls evaluated in place", ["eval", "--what", "fn"], "EvalCheck", "in"),
                            obs("templates evaluated in place", ["eval", "--what", "tpl"], "EvalCheck", "in")], "assumptions": EVAL_ASSUME}
CHECKS["P08"] = {"stages": [obs("visited", ["visit"], "VisitCheck")], "assumptions": PARSE_ASSUME}
CHECKS["P12"] = {"stages": [
    {"kind": "model", "name": "all documents, one structure longer", "module": "JsonModel", "cfg": "JsonModel4.cfg", "tiers": ("thorough",)},
    {"kind": "obs", "name": "documents of the specification mapped", "args": ["json"], "module": "JsonCheck",
     "generate": {"module": "JsonModel", "cfg": "JsonModel.cfg"}, "env": {"GEN": "1"}},
    obs("mapped to values", ["json"], "JsonCheck"),
], "assumptions": ["The mapping of spec/HclJson.tla is the oracle; JsonModel.tla shows what it guarantees",
                   "Arrays and objects as object keys, which no JSON document can have, only have to be refused by deserialization"]}

SERDE_ASSUME = ["The rules of spec/HclSerde.tla and spec/HclDe.tla are the oracle; DataModel.tla shows that they undo each other",
                "Data are generated for the data model of serde; types read what derived implementations of serde ask for"]
DATA4 = {"kind": "model", "name": "all data of four steps", "module": "DataModel", "cfg": "DataModel4.cfg", "tiers": ("thorough",)}


BLOCKS4 = {"kind": "model", "name": "all nested blocks of four steps", "module": "DataModel", "cfg": "DataModel_blocks4.cfg", "tiers": ("thorough",)}


def replayed(what, module):
    return [{"kind": "obs", "name": name, "args": ["data", "--what", what], "module": module,
             "generate": {"module": "DataModel", "cfg": cfg}, "env": {"GEN": "1"}}
            for name, cfg in [("data of the specification", "DataModel.cfg"), ("nested blocks of the specification", "DataModel_blocks.cfg")]]


CHECKS["P11"] = {"stages": [*replayed("ser", "SerCheck"), DATA4, BLOCKS4, obs("random data serialized", ["data", "--what", "ser"], "SerCheck")],
                 "assumptions": SERDE_ASSUME}
CHECKS["P13"] = {"stages": [*replayed("de", "DeCheck"), DATA4, BLOCKS4, obs("random data deserialized", ["data", "--what", "de"], "DeCheck"),
                            obs("nodes read as what they are", ["own"], "DeCheck")],
                 "assumptions": SERDE_ASSUME}
CHECKS["P20"] = {"stages": [
    {"kind": "obs", "name": "texts of the specification written and read", "args": ["text"], "module": "TextCheck",
     "generate": {"module": "TextModel", "cfg": "TextModel.cfg"}, "env": {"GEN": "1"}},
    {"kind": "model", "name": "all texts of five characters", "module": "TextModel", "cfg": "TextModel5.cfg", "tiers": ("thorough",)},
    obs("random texts written and read", ["text"], "TextCheck"),
], "assumptions": ["The escaping rules of spec/HclEscape.tla and the grammar of spec/HclParser.tla are the oracle; TextModel.tla shows that they undo each other",
                   "Texts contain letters outside ASCII only as far as spec/HclChars.tla classifies them"]}
CHECKS["P19"] = {"stages": [
    {"kind": "obs", "name": "texts of the specification as names", "args": ["ident"], "module": "IdentCheck",
     "generate": {"module": "IdentModel", "cfg": "IdentModel.cfg"}, "env": {"GEN": "1"}},
    {"kind": "model", "name": "all texts of four characters", "module": "IdentModel", "cfg": "IdentModel4.cfg", "tiers": ("thorough",)},
    obs("all characters, and random texts as names", ["ident"], "IdentCheck"),
    obs("the same with the feature perf", ["ident"], "IdentCheck", features="perf"),
], "assumptions": ["The tables of the unicode-ident crate say which characters Unicode allows in identifiers"]}
CHECKS["P22"] = {"cli": True, "stages": [
    {"kind": "obs", "name": "calls of the specification made", "args": ["cli"], "module": "CliCheck",
     "generate": {"module": "CliModel", "cfg": "CliModel.cfg"}, "env": {"GEN": "1"}},
    {"kind": "model", "name": "all calls with three paths", "module": "CliModel", "cfg": "CliModel3.cfg", "tiers": ("thorough",)},
    obs("random calls on random files", ["cli"], "CliCheck"),
], "assumptions": ["The grammar, evaluation and JSON mapping of the specification are the oracle (HclParser.tla, HclEval.tla, HclJson.tla)",
                   "Files do not change during a call and can be read; patterns are those of globset for *, ? and ** on ASCII names"]}
CHECKS["P25"] = {"stages": [obs("pairs of trees compared", ["eq"], "EqCheck")],
                 "assumptions": ["What counts as a difference is spelled out in spec/HclEq.tla: punctuation and text inside empty brackets and directives do, decor does not"]}
CHECKS["P23"] = {"macros": True, "stages": [
    {"kind": "obs", "name": "invocations of the specification compiled and run", "args": ["macros"], "module": "MacroCheck",
     "generate": {"module": "MacroModel", "cfg": "MacroModel.cfg"}, "env": {"GEN": "1"}},
    {"kind": "obs", "name": "objects of the specification compiled and run", "args": ["macros"], "module": "MacroCheck",
     "generate": {"module": "MacroModel", "cfg": "MacroModel_items.cfg"}, "env": {"GEN": "1"}},
    {"kind": "model", "name": "all objects of four items", "module": "MacroModel", "cfg": "MacroModel_items4.cfg", "tiers": ("thorough",)},
    {"kind": "model", "name": "all invocations of five tokens", "module": "MacroModel", "cfg": "MacroModel5.cfg", "tiers": ("thorough",)},
    obs("random invocations compiled and run", ["macros"], "MacroCheck"),
], "assumptions": ["What tokens stand for is spelled out in spec/HclMacro.tla",
                   "Values of several tokens are followed by a comma in objects, and are a single token tree in bodies, as the macros require"]}
CHECKS["P26"] = {"stages": [
    {"kind": "obs", "name": "steps of the specification done", "args": ["steps"], "module": "BuildCheck",
     "generate": {"module": "BuildModel", "cfg": "BuildModel.cfg"}, "env": {"GEN": "1"}},
    {"kind": "model", "name": "all nodes of six steps", "module": "BuildModel", "cfg": "BuildModel5.cfg", "tiers": ("thorough",)},
    obs("random steps done", ["steps"], "BuildCheck"),
    obs("Rust values converted", ["conv"], "BuildCheck"),
], "assumptions": ["What a step adds or sets is spelled out in spec/HclBuild.tla; BuildModel.tla shows that what is built can be written and read",
                   "Conversions are to make what serialization makes of the same data (spec/HclSerde.tla)"]}
CHECKS["P27"] = {"stages": [
    {"kind": "obs", "name": "calls of iterators of the specification done", "args": ["iter"], "module": "AccessCheck",
     "generate": {"module": "IterModel", "cfg": "IterModel.cfg"}, "env": {"GEN": "1"}},
    {"kind": "model", "name": "all iterators of four items", "module": "IterModel", "cfg": "IterModel4.cfg", "tiers": ("thorough",)},
    obs("random calls of iterators", ["iter"], "AccessCheck"),
    obs("questions asked of random nodes", ["acc"], "AccessCheck"),
], "assumptions": ["What a call of an iterator hands out and leaves is spelled out in spec/HclIter.tla, what a node answers in spec/HclAccess.tla"]}

CHECKS["P28"] = {"stages": [
    {"kind": "obs", "name": "histories of the specification replayed", "args": ["sess"], "module": "SessCheck",
     "generate": {"module": "SessionModel", "cfg": "SessionModel.cfg"}, "env": {"GEN": "1"}},
    {"kind": "model", "name": "all histories of five actions", "module": "SessionModel", "cfg": "SessionModel5.cfg", "tiers": ("thorough",)},
    obs("random histories of calls", ["sess"], "SessCheck"),
], "assumptions": SERDE_ASSUME + ["Serializers of other libraries get no parts of documents while a serializer of this crate runs around them (see the known finding)"]}
CHECKS["P29"] = {"stages": [
    {"kind": "obs", "name": "schedules of the specification replayed", "args": ["io"], "module": "IoCheck",
     "generate": {"module": "IoModel", "cfg": "IoModel.cfg"}, "env": {"GEN": "1"}},
    {"kind": "model", "name": "all schedules with two interruptions", "module": "IoModel", "cfg": "IoModel2.cfg", "tiers": ("thorough",)},
    obs("random documents in random pieces", ["io"], "IoCheck"),
], "assumptions": ["The rules of UTF-8, grammar and layout of the specification are the oracle (HclUtf8.tla, HclParser.tla, HclFormat.tla)",
                   "Readers and writers keep to the contract of std::io: they do not deliver or accept more than there is"]}
