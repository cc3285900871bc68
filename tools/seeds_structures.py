F='dot-structures/src/lib.rs'
DEMO='''#!/bin/bash
# run with cwd = the repository: builds a small program against dot-structures and runs it
R="$PWD"; H="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 3
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src" && cp "$H/main.rs" "$T/src/main.rs" || exit 3
cat > "$T/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
dot-structures = { path = "$R/dot-structures" }
TOML
cd "$T" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" cargo run -q --offline
'''
PRE='''use dot_structures::*;
fn node(s: &str) -> Stmt {
    Stmt::Node(Node::new(NodeId(Id::Plain(s.to_string()), None), vec![]))
}
'''
SEEDS=[
 dict(id="s1-add-twice", property="C25", needs="the same statement added to a subgraph twice, one after the other", breaks="the second copy is lost",
  edits=[(F,'''        self.stmts.push(stmt)
''','''        if self.stmts.last() != Some(&stmt) {
            self.stmts.push(stmt)
        }
''')], demo=DEMO, extra={"main.rs":PRE+'''fn main() {
    let mut s = Subgraph { id: Id::Plain("s".to_string()), stmts: vec![] };
    s.add_stmt(node("a"));
    s.add_stmt(node("a"));
    assert_eq!(s.stmts.len(), 2);
}
'''}),
 dict(id="s2-word-prefix", property="C25", needs="a text that begins with one of the three words", breaks="`nodes` is accepted as node",
  edits=[(F,'''            "node" => GraphAttributes::Node(attrs),''','''            word if word.starts_with("node") => GraphAttributes::Node(attrs),''')], demo=DEMO,
  extra={"main.rs":'''use dot_structures::*;
fn main() {
    assert!(std::panic::catch_unwind(|| GraphAttributes::new("nodes", vec![])).is_err());
    assert_eq!(GraphAttributes::new("NODE", vec![]), GraphAttributes::Node(vec![]));
}
'''}),
 dict(id="s3-eq-quoted", property="C30", needs="a quoted and a plain id with the same text", breaks="quoted and plain ids compare equal",
  edits=[(F,'''#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Id {''','''#[derive(Debug, Clone, Eq)]
pub enum Id {'''),(F,'''impl Display for Id {''','''impl Id {
    fn parts(&self) -> (bool, bool, &str) {
        match self {
            Id::Html(v) => (true, false, v),
            Id::Anonymous(v) => (false, true, v),
            Id::Escaped(v) | Id::Plain(v) => (false, false, v),
        }
    }
}

impl PartialEq for Id {
    fn eq(&self, other: &Self) -> bool {
        self.parts() == other.parts()
    }
}

impl std::hash::Hash for Id {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        self.parts().hash(state)
    }
}

impl Display for Id {''')], demo=DEMO, extra={"main.rs":'''use dot_structures::*;
fn main() {
    assert_ne!(Id::Plain("\\"a\\"".to_string()), Id::Escaped("\\"a\\"".to_string()));
    assert_eq!(Id::Plain("a".to_string()), Id::Plain("a".to_string()));
}
'''}),
]
