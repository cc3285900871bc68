F='src/cmd.rs'
DEMO='''#!/bin/bash
# run with cwd = the repository; a stand-in for `dot` in a scratch PATH
R="$PWD"; H="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 3
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src" "$T/bin" "$T/tmp" && cp "$H/main.rs" "$T/src/main.rs" && cp "$H/fake-dot" "$T/bin/dot" && chmod +x "$T/bin/dot" || exit 3
cat > "$T/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
graphviz-rust = { path = "$R" }
TOML
cp "$R/Cargo.lock" "$T/Cargo.lock"
cd "$T" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" cargo build -q --offline || exit 4
TMPDIR="$T/tmp" PATH="$T/bin:$PATH" "$T/target/debug/demo"
'''
SEEDS=[
 dict(id="e1-signal", property="C20", needs="the program is killed by a signal", breaks="a run killed by a signal is reported as success",
  edits=[(F,'.unwrap_or(true)','.unwrap_or(false)')], demo=DEMO,
  extra={"fake-dot":"#!/bin/sh\nkill -9 $$\n","main.rs":'fn main() { assert!(graphviz_rust::exec_dot("graph a {}".to_string(), vec![]).is_err()); }\n'}),
 dict(id="e2-leftover", property="C21", needs="a run that fails", breaks="the input file of a failed run stays behind",
  edits=[(F,'''                path.close()?;
                Err(''','''                path.keep()?;
                Err(''')], demo=DEMO,
  extra={"fake-dot":"#!/bin/sh\nexit 3\n","main.rs":'''fn main() {
    assert!(graphviz_rust::exec_dot("graph a {}".to_string(), vec![]).is_err());
    assert_eq!(std::fs::read_dir(std::env::temp_dir()).unwrap().count(), 0);
}
'''}),
 dict(id="e3-blank-args", property="C22", needs="an argument that is empty or only blank", breaks="blank arguments are dropped",
  edits=[(F,'''        command.arg(arg);''','''        if !arg.trim().is_empty() {
            command.arg(arg);
        }''')], demo=DEMO,
  extra={"fake-dot":"#!/bin/sh\necho $#\n","main.rs":'''use graphviz_rust::cmd::CommandArg;
fn main() {
    let a = vec![CommandArg::Custom("-Glabel".into()), CommandArg::Custom("".into())];
    assert_eq!(graphviz_rust::exec_dot("graph a {}".to_string(), a).unwrap(), b"3\\n".to_vec());
}
'''}),
 dict(id="e4-format-name", property="C23", needs="the ImapNp format", breaks="imap_np is passed under the name of another format",
  edits=[(F,'Format::ImapNp => "imap_np".to_string()','Format::ImapNp => "imap".to_string()')], demo=DEMO,
  extra={"fake-dot":"#!/bin/sh\nprintf %s \"$1\"\n","main.rs":'''use graphviz_rust::cmd::Format;
fn main() {
    assert_eq!(graphviz_rust::exec_dot("graph a {}".to_string(), vec![Format::ImapNp.into()]).unwrap(), b"-Timap_np".to_vec());
}
'''}),
 dict(id="e5-short-write", property="C21", needs="a write to the temporary file that the system cuts short (a file size limit, a full disk)", breaks="a partly written input is run",
  edits=[(F,'file.write_all(ctx.as_bytes()).map(|_x| file)','file.write(ctx.as_bytes()).map(|_x| file)')], demo=DEMO.replace('TMPDIR=','ulimit -f 8; trap "" XFSZ; TMPDIR='),
  extra={"fake-dot":"#!/bin/sh\nexit 0\n","main.rs":'''fn main() {
    let text = format!("graph a {{ {} }}", "b ".repeat(1 << 20));
    assert!(graphviz_rust::exec_dot(text, vec![]).is_err());
}
'''}),
]
