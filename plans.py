"""What each check runs (see run.py)."""


def conform(gen, judge, plan, quick, thorough, size=None):
    """size: the bound SIZE of the plan, quick and thorough."""
    s = {"kind": "conform", "gen": gen, "judge": judge, "plan": plan,
         "quick": {"count": quick}, "thorough": {"count": thorough}}
    if size:
        s["quick"]["env"], s["thorough"]["env"] = {"SIZE": size[0]}, {"SIZE": size[1]}
    return s


def text(plan, quick, thorough, size=None):
    return conform("GenText", "JudgeText", plan, quick, thorough, size)


def anytext(plan, quick, thorough, size=None):
    return conform("GenGrammar", "JudgeGrammar", plan, quick, thorough, size)


def edit(plan, quick, thorough):
    return conform("GenEdit", "JudgeEdit", plan, quick, thorough)


def names(op, quick=6000, thorough=60000):
    """One operation on names with every character in every place."""
    return conform("GenNames", "JudgeEdit", op, quick, thorough)


def model(op, quick=40000, thorough=400000, size=(5, 6)):
    """One operation on every small document, and on every short mapping."""
    return conform("GenModel", "JudgeEdit", op, quick, thorough, size)


def pretty(plan, quick, thorough, size=None):
    return conform("GenPretty", "JudgePretty", plan, quick, thorough, size)


def serde(plan, quick, thorough, size=None):
    return conform("GenSerde", "JudgeSerde", plan, quick, thorough, size)


PRETTY = [pretty("pretty", 40000, 300000), pretty("prettyvalue", 30000, 150000), pretty("prettydocs", 40000, 300000, (5, 6)),
          pretty("prettystrings", 14425, 346201, (3, 4)),
          pretty("prettychars", 16000, 200000)]
PLANS = {
    "C01": [text("text", 24000, 220000), text("format", 12000, 80000), text("docs", 30000, 220000, (5, 6)), anytext("any", 40000, 220000),
            anytext("chars", 20000, 60000)],
    "C02": [text("text", 50000, 400000), text("docs", 70214, 500000, (5, 6))],
    "C03": [anytext("any", 60000, 800000), anytext("every", 100000, 599844), anytext("chars", 60000, 250000)],
    "C04": [conform("GenPath", "JudgePath", "path", 100000, 600000), conform("GenPath", "JudgePath", "paths", 66430, 5380840),
            conform("GenPath", "JudgePath", "pathchars", 60000, 497000)],
    "C05": [edit("find", 20000, 80000), model("find"), model("flat-find"), names("find")],
    "C06": [edit("insert", 10000, 40000), edit("insertcall", 8000, 30000), model("insert", 30000), model("insertcall", 20000),
            model("flat-insert", 30000), model("flat-insertcall", 20000), names("insert"), names("insertcall", 4000)],
    "C07": [edit("remove", 16000, 80000), model("remove"), model("flat-remove"), names("remove")],
    "C08": [edit("rename", 10000, 40000), edit("toobj", 10000, 40000), model("rename", 30000), model("flat-rename", 30000),
            model("toobj", 20000), model("flat-toobj", 20000), names("rename", 4000), names("toobj", 4000)],
    "C09": [edit("mvsub", 16000, 60000), model("mvsub"), model("flat-mvsub"), names("mvsub")],
    "C10": [edit("mvmap", 8000, 60000), model("mvmap"), model("flat-mvmap"), names("mvmap")],
    "C11": [edit("history", 12000, 60000), model("session", 40000, 300000), text("ragged", 24000, 200000)],
    "C12": [conform("GenScalar", "JudgeScalar", "scalar", 100000, 400000), conform("GenScalar", "JudgeScalar", "scalars", 156248, 781248),
            text("text", 16000, 160000), anytext("chars", 20000, 60000)],
    "C13": PRETTY,
    "C14": PRETTY,
    "C15": [serde("serde", 14000, 70000), serde("numbers", 3000, 60000), serde("strings", 14425, 100000, (3, 4)), serde("charstrings", 16000, 100000)],
    "C16": [serde("serde", 14000, 70000), serde("numbers", 3000, 60000), serde("strings", 14425, 100000, (3, 4)), serde("charstrings", 16000, 100000)],
    "C17": [conform("GenDe", "JudgeDe", "de", 10000, 60000), conform("GenDe", "JudgeDe", "altered", 12000, 80000), conform("GenDe", "JudgeDe", "anchordocs", 8000, 60000, (5, 6)),
            conform("GenDe", "JudgeDe", "plain", 20000, 120000, (3, 4)), conform("GenDe", "JudgeDe", "styles", 14112, 14112)],
    "C18": [conform("GenDe", "JudgeDe", "anchors", 12000, 60000), conform("GenDe", "JudgeDe", "anchordocs", 16000, 80000, (5, 6))],
    "C19": [conform("GenVisit", "JudgeVisit", "visit", 60000, 300000), conform("GenVisit", "JudgeVisit", "visitdocs", 70214, 300000, (5, 6))],
    "C20": [text("format", 24000, 120000), text("ragged", 16000, 120000), text("text", 8000, 80000), text("docs", 24000, 250000, (5, 6)), anytext("any", 16000, 150000),
            anytext("chars", 20000, 60000)],
}
SMALL = "every document of up to five nodes (a part of them in quick; thorough: six)"
EDITS = "drawn documents and paths, one to three operations; one operation on " + SMALL + " and on every mapping of up to five entries of eight kinds; every character of 111, and pairs of them, in every place of a name"
NOTES = {
    "C01": "drawn documents and layouts, " + SMALL + ", texts with mistakes, and every character of 111, and some pairs, in every place of 72; the library is the judge of equality only through the node it returns",
    "C02": "drawn documents of depth up to four in every layout the specification writes, and every document of up to five nodes (thorough: part of those of six)",
    "C03": "every text of up to two lines, and (thorough: all, quick: the first) of three, of 21 forms at four columns; every character of 111 in every place of 72, and as many pairs as there is time for; documents with up to three mistakes, and lines and tokens put together at random; the specification's grammar is the oracle",
    "C04": "every path text of up to five characters over nine (quick; seven thorough), every character of 111 in every place of 40 (thorough: nearly all of the pairs), drawn path texts and pairs",
    "C12": "every scalar of up to six lines or parts over small sets, and drawn scalars, as trees in memory; the scalars of drawn documents in every layout, and every character of 111 in every place of 72, as read from texts",
    "C13": "drawn documents and serialized values, " + SMALL + ", every string of up to three of 24 characters (thorough: four), and every character of 111 in every place of 41 strings, in several places",
    "C14": "drawn documents and serialized values, " + SMALL + ", every string of up to three of 24 characters (thorough: four), and every character of 111 in every place of 41 strings, in several places",
    "C19": "drawn trees of depth up to four, and " + SMALL,
    "C05": EDITS, "C06": EDITS, "C07": EDITS, "C08": EDITS, "C09": EDITS, "C10": EDITS,
    "C11": "drawn texts and histories of up to six operations; one operation on " + SMALL + ", and drawn documents as edits may leave them (collections without entries, comments where no text has them), written and read again",
    "C15": "drawn types and values of the serde data model, numbers of every type and any length, every string of up to three of 24 characters, and every character of 111 in every place of 41 strings",
    "C16": "drawn types and values of the serde data model, numbers of every type and any length, every string of up to three of 24 characters, and every character of 111 in every place of 41 strings",
    "C17": "drawn nodes and texts, nodes that differ in one place from one that fits the type, and " + SMALL + ", read as three drawn types and without a type; words in every mixture of cases and short texts of the characters of numbers, read as every type of scalars; 98 scalar texts in eight styles with 18 ways of signs, spaces, cases and quotes around, read as every type of scalars",
    "C18": "drawn documents with aliases and anchors, and " + SMALL + ", read as three drawn types and without a type",
    "C20": "drawn documents, texts and documents as edits may leave them, " + SMALL + ", and every character of 111 in every place of 72, compared with the specified canonical text",
}
