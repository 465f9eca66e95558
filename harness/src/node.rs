//! The abstract document of the specification (spec/Node.tla) and its relation to the types of
//! the library.
use serde::{Deserialize, Serialize};
use yaml_subset::yaml::string::{DoubleQuotedStringEscapedChar as D, SingleQuotedStringEscapedChar as S};
use yaml_subset::yaml::*;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Node {
    pub t: String,
    pub s: String,
    pub k: String,
    pub a: String,
    pub c: Vec<Node>,
}

pub fn nd(t: &str, s: &str, c: Vec<Node>) -> Node {
    Node { t: t.into(), s: s.into(), k: String::new(), a: String::new(), c }
}

fn chomp_name(c: &BlockChomping) -> &'static str {
    match c {
        BlockChomping::Clip => "clip",
        BlockChomping::Strip => "strip",
        BlockChomping::Keep => "keep",
    }
}

fn chomp(s: &str) -> BlockChomping {
    match s {
        "clip" => BlockChomping::Clip,
        "strip" => BlockChomping::Strip,
        "keep" => BlockChomping::Keep,
        x => panic!("case: chomping {x}"),
    }
}

fn lines(ls: &[String]) -> Vec<Node> {
    ls.iter().map(|l| nd("ln", l, vec![])).collect()
}

fn el(key: &str, v: &AliasedYaml) -> Node {
    Node {
        t: "el".into(),
        s: String::new(),
        k: key.into(),
        a: v.alias.clone().unwrap_or_default(),
        c: vec![from_yaml(&v.value)],
    }
}

pub fn from_yaml(y: &Yaml) -> Node {
    match y {
        Yaml::UnquotedString(s) => nd("uq", s, vec![]),
        Yaml::Anchor(s) => nd("anch", s, vec![]),
        Yaml::LiteralString(ls, c) => nd("lit", chomp_name(c), lines(ls)),
        Yaml::FoldedString(ls, c) => nd("fold", chomp_name(c), lines(ls)),
        Yaml::SingleQuotedString(ps) => nd(
            "sq",
            "",
            ps.iter()
                .map(|p| match p {
                    SingleQuotedStringPart::String(s) => nd("str", s, vec![]),
                    SingleQuotedStringPart::EscapedChar(S::SingleQuote) => nd("esc", "'", vec![]),
                    SingleQuotedStringPart::BlankLines(n) => nd("bl", &"\n".repeat(*n), vec![]),
                    SingleQuotedStringPart::RemovableNewline => nd("rn", "", vec![]),
                })
                .collect(),
        ),
        Yaml::DoubleQuotedString(ps) => nd(
            "dq",
            "",
            ps.iter()
                .map(|p| match p {
                    DoubleQuotedStringPart::String(s) => nd("str", s, vec![]),
                    DoubleQuotedStringPart::EscapedChar(c) => nd(
                        "esc",
                        match c {
                            D::Quote => "\"",
                            D::Backslash => "\\",
                            D::Tab => "t",
                            D::CarriageReturn => "r",
                            D::Newline => "n",
                            D::RealNewline => "\n",
                        },
                        vec![],
                    ),
                    DoubleQuotedStringPart::BlankLines(n) => nd("bl", &"\n".repeat(*n), vec![]),
                    DoubleQuotedStringPart::RemovableNewline => nd("rn", "", vec![]),
                })
                .collect(),
        ),
        Yaml::InlineArray(v) => nd("ia", "", v.iter().map(from_yaml).collect()),
        Yaml::InlineHash(v) => nd(
            "ih",
            "",
            v.iter()
                .map(|(k, v)| Node {
                    t: "el".into(),
                    s: String::new(),
                    k: k.clone(),
                    a: String::new(),
                    c: vec![from_yaml(v)],
                })
                .collect(),
        ),
        Yaml::Array(v) => nd(
            "ba",
            "",
            v.iter()
                .map(|d| match d {
                    ArrayData::Comment(s) => nd("cm", s, vec![]),
                    ArrayData::InlineComment(s) => nd("ic", s, vec![]),
                    ArrayData::Element(e) => el("", e),
                })
                .collect(),
        ),
        Yaml::Hash(v) => nd(
            "bh",
            "",
            v.iter()
                .map(|d| match d {
                    HashData::Comment(s) => nd("cm", s, vec![]),
                    HashData::InlineComment(s) => nd("ic", s, vec![]),
                    HashData::Element(e) => el(&e.key, &e.value),
                })
                .collect(),
        ),
    }
}

pub fn from_doc(d: &Document) -> Node {
    let mut c: Vec<Node> = d.leading_comments.iter().map(|s| nd("lc", s, vec![])).collect();
    c.extend(d.items.iter().map(|i| match i {
        DocumentData::Comment(s) => nd("cm", s, vec![]),
        DocumentData::Yaml(y) => from_yaml(y),
    }));
    nd("doc", "", c)
}

pub fn aliased(n: &Node) -> AliasedYaml {
    AliasedYaml {
        alias: if n.a.is_empty() { None } else { Some(n.a.clone()) },
        value: to_yaml(&n.c[0]),
    }
}

fn texts(n: &Node) -> Vec<String> {
    n.c.iter().map(|l| l.s.clone()).collect()
}

pub fn to_yaml(n: &Node) -> Yaml {
    match n.t.as_str() {
        "uq" => Yaml::UnquotedString(n.s.clone()),
        "anch" => Yaml::Anchor(n.s.clone()),
        "lit" => Yaml::LiteralString(texts(n), chomp(&n.s)),
        "fold" => Yaml::FoldedString(texts(n), chomp(&n.s)),
        "sq" => Yaml::SingleQuotedString(
            n.c.iter()
                .map(|p| match p.t.as_str() {
                    "str" => SingleQuotedStringPart::String(p.s.clone()),
                    "esc" => SingleQuotedStringPart::EscapedChar(S::SingleQuote),
                    "bl" => SingleQuotedStringPart::BlankLines(p.s.len()),
                    "rn" => SingleQuotedStringPart::RemovableNewline,
                    x => panic!("case: part {x}"),
                })
                .collect(),
        ),
        "dq" => Yaml::DoubleQuotedString(
            n.c.iter()
                .map(|p| match p.t.as_str() {
                    "str" => DoubleQuotedStringPart::String(p.s.clone()),
                    "esc" => DoubleQuotedStringPart::EscapedChar(match p.s.as_str() {
                        "\"" => D::Quote,
                        "\\" => D::Backslash,
                        "t" => D::Tab,
                        "r" => D::CarriageReturn,
                        "n" => D::Newline,
                        "\n" => D::RealNewline,
                        x => panic!("case: escape {x}"),
                    }),
                    "bl" => DoubleQuotedStringPart::BlankLines(p.s.len()),
                    "rn" => DoubleQuotedStringPart::RemovableNewline,
                    x => panic!("case: part {x}"),
                })
                .collect(),
        ),
        "ia" => Yaml::InlineArray(n.c.iter().map(to_yaml).collect()),
        "ih" => Yaml::InlineHash(n.c.iter().map(|e| (e.k.clone(), to_yaml(&e.c[0]))).collect()),
        "ba" => Yaml::Array(
            n.c.iter()
                .map(|e| match e.t.as_str() {
                    "cm" => ArrayData::Comment(e.s.clone()),
                    "ic" => ArrayData::InlineComment(e.s.clone()),
                    _ => ArrayData::Element(aliased(e)),
                })
                .collect(),
        ),
        "bh" => Yaml::Hash(
            n.c.iter()
                .map(|e| match e.t.as_str() {
                    "cm" => HashData::Comment(e.s.clone()),
                    "ic" => HashData::InlineComment(e.s.clone()),
                    _ => HashData::Element(HashElement { key: e.k.clone(), value: aliased(e) }),
                })
                .collect(),
        ),
        x => panic!("case: value {x}"),
    }
}

pub fn to_doc(n: &Node) -> Document {
    let mut d = Document { leading_comments: vec![], items: vec![] };
    for x in &n.c {
        match x.t.as_str() {
            "lc" => d.leading_comments.push(x.s.clone()),
            "cm" => d.items.push(DocumentData::Comment(x.s.clone())),
            _ => d.items.push(DocumentData::Yaml(to_yaml(x))),
        }
    }
    d
}
