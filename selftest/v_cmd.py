IDS=['C20','C21','C22','C23','C24']
F='src/cmd.rs'
EX='''    let args = args.into_iter().map(|a| a.prepare()).collect();
    temp_file(graph).and_then(|f| {
        let path = f.into_temp_path();
        do_exec(&path, args).and_then(|o| {
            if o.status.code().map(|c| c != 0).unwrap_or(true) {
                let mes = String::from_utf8_lossy(&o.stderr).to_string();
                path.close()?;
                Err(std::io::Error::new(ErrorKind::Other, mes))
            } else {
                path.close()?;
                Ok(o.stdout)
            }
        })
    })
'''
DO='''    let mut command = Command::new("dot");

    for arg in args {
        command.arg(arg);
    }
    command.arg(input).output()
'''
TF='''    let mut file = NamedTempFile::new()?;
    file.write_all(ctx.as_bytes()).map(|_x| file)
'''
V=[
('base','quiet',[]),
('r-question','quiet',[(F,EX,'''    let args: Vec<String> = args.iter().map(CommandArg::prepare).collect();
    let path = temp_file(graph)?.into_temp_path();
    let output = do_exec(&path, args)?;
    let result = if output.status.success() {
        Ok(output.stdout)
    } else {
        let message = String::from_utf8_lossy(&output.stderr).into_owned();
        Err(io::Error::new(ErrorKind::Other, message))
    };
    path.close()?;
    result
''')]),
('r-match','quiet',[(F,EX,'''    let mut prepared = Vec::with_capacity(args.len());
    for a in &args {
        prepared.push(a.prepare());
    }
    let f = temp_file(graph)?;
    let o = do_exec(f.path(), prepared)?;
    f.close()?;
    match o.status.code() {
        Some(0) => Ok(o.stdout),
        _ => Err(io::Error::other(String::from_utf8_lossy(&o.stderr))),
    }
''')]),
('r-drop','quiet',[(F,EX,'''    let args = args.into_iter().map(|a| a.prepare()).collect();
    let file = temp_file(graph)?;
    let o = do_exec(file.path(), args)?;
    drop(file);
    if o.status.success() { return Ok(o.stdout); }
    Err(std::io::Error::new(ErrorKind::Other, String::from_utf8_lossy(&o.stderr).to_string()))
''')]),
('r-args','quiet',[(F,DO,'''    Command::new("dot").args(args).arg(input).output()
''')]),
('r-args2','quiet',[(F,DO,'''    let mut command = Command::new("dot");
    command.args(&args);
    command.arg(input);
    let out = command.output()?;
    Ok(out)
''')]),
('r-foreach','quiet',[(F,DO,'''    let mut command = Command::new("dot");
    args.iter().for_each(|a| { command.arg(a); });
    command.arg(input).output()
''')]),
('r-prefix','quiet',[(F,'CommandArg::Output(p) => format!("-o{}", p),','CommandArg::Output(p) => { let mut s = String::from("-o"); s.push_str(p); s }')]),
('r-helper','quiet',[(F,'''                format!("-T{}", str)''','''                fn flag(c: &str, v: &str) -> String { ["-", c, v].concat() }
                flag("T", &str)''')]),
('r-temp','quiet',[(F,TF,'''    let mut file = NamedTempFile::new()?;
    match file.write_all(ctx.as_bytes()) {
        Ok(()) => Ok(file),
        Err(e) => Err(e),
    }
''')]),
('r-temp2','quiet',[(F,TF,'''    let mut file = NamedTempFile::new()?;
    file.write_all(ctx.as_bytes())?;
    file.flush()?;
    Ok(file)
''')]),
('r-temp3','quiet',[(F,TF,'''    let mut file = NamedTempFile::new()?;
    write!(file, "{}", ctx)?;
    Ok(file)
''')]),
('r-inlineprep','quiet',[(F,EX,EX.replace("args.into_iter().map(|a| a.prepare()).collect()",'args.into_iter().map(|a| match a { CommandArg::Custom(s) => s, other => other.prepare() }).collect()'))]),
('m-status-ok','C20',[(F,'.unwrap_or(true)','.unwrap_or(false)')]),
('m-status-gt','C20',[(F,'|c| c != 0','|c| c > 1')]),
('m-stderr','C20',[(F,'&o.stderr','&o.stdout')]),
('m-ok-stderr','C20',[(F,'Ok(o.stdout)','Ok(if o.stdout.is_empty() { o.stderr } else { o.stdout })')]),
('m-empty-err','C20',[(F,'if o.status.code()','if !o.stderr.is_empty() || o.status.code()')]),
('m-kind','C20',[(F,'ErrorKind::Other, mes','ErrorKind::InvalidData, mes')]),
('m-unwrap','C20',[(F,'NamedTempFile::new()?','NamedTempFile::new().unwrap()')]),
('m-keep','C21',[(F,'''                path.close()?;
                Err''','''                let _ = path.keep();
                Err''')]),
('m-early','C21',[(F,'''        let path = f.into_temp_path();
        do_exec(&path, args)''','''        let path = f.into_temp_path();
        let q = path.to_path_buf();
        drop(path);
        do_exec(&q, args)'''),(F,'                path.close()?;\n',''),(F,'                path.close()?;\n','')]),
('m-short','C21',[(F,'file.write_all(ctx.as_bytes()).map(|_x| file)','file.write(ctx.as_bytes()).map(|_x| file)')]),
('m-content','C21',[(F,'ctx.as_bytes()','ctx.trim_end().as_bytes()')]),
('m-ignore-write','C21 C20',[(F,TF,'''    let mut file = NamedTempFile::new()?;
    let _ = file.write_all(ctx.as_bytes());
    Ok(file)
''')]),
('r-forget','quiet',[(F,'Err(std::io::Error::new(ErrorKind::Other, mes))','{ std::mem::forget(o); Err(std::io::Error::new(ErrorKind::Other, mes)) }')]),
('m-skip','C22',[(F,'for arg in args {','for arg in args.into_iter().filter(|a| !a.is_empty()) {')]),
('m-rev','C22',[(F,'for arg in args {','for arg in args.into_iter().rev() {')]),
('m-first','C22',[(F,'for arg in args {\n','command.arg(input);\n    for arg in args {\n'),(F,'command.arg(input).output()','command.output()')]),
('m-dup','C22',[(F,'command.arg(arg);','if arg.len() > 40 { command.arg(&arg); }\n        command.arg(arg);')]),
('m-env','C22',[(F,'command.arg(input).output()','command.env("LANG", "C").arg(input).output()')]),
('m-cwd','C22',[(F,'command.arg(input).output()','command.current_dir("/").arg(input).output()')]),
('m-space','C22',[(F,'format!("-o{}", p)','format!("-o {}", p)')]),
('m-split','C22',[(F,'command.arg(arg);','for p in arg.split(\' \') { command.arg(p); }')]),
('m-custom','C22',[(F,'CommandArg::Custom(s) => s.clone()','CommandArg::Custom(s) => s.trim().to_string()')]),
('m-name','C23',[(F,'"imap_np"','"imapnp"')]),
('m-name2','C23',[(F,'Format::PlainExt => "plain-ext"','Format::PlainExt => "plain"')]),
('r-name3','quiet',[(F,'''    Twopi,
    Circo''','''    TwoPi,
    Circo''')]),
('m-name4','C23',[(F,'                    Format::Vbmp => "wbmp".to_string(),\n','')]),
('m-lower','C23',[(F,'_ => format!("{:?}", f).to_lowercase()','_ => format!("{:?}", f)')]),
('m-exec','C24',[('src/lib.rs','cmd::exec(dot_graph, args)','cmd::exec(dot_graph.trim().to_string(), args)')]),
('m-exec2','C24',[('src/lib.rs','cmd::exec(print(graph, ctx), args)','cmd::exec(print(graph, &mut PrinterContext::default()), args)')]),
('m-env-print','C24',[('src/printer.rs','''            Id::Anonymous(_) => "".to_string(),''','''            Id::Anonymous(_) => std::env::var("ANON").unwrap_or_default(),''')]),
('m-log-parse','C24',[('src/lib.rs','    parser::parse(dot)','    let r = parser::parse(dot); if r.is_err() { eprintln!("no graph"); } r')]),
('m-spawn-nopipe','C20',[(F,DO,'''    let mut command = Command::new("dot");
    command.args(args).arg(input);
    command.stdout(std::process::Stdio::piped());
    command.spawn()?.wait_with_output()
''')]),
('m-output-null','C20',[(F,DO,'''    let mut command = Command::new("dot");
    command.args(args).arg(input);
    command.stderr(std::process::Stdio::null()).output()
''')]),
('m-spawn-early','C21',[(F,EX,'''    let args: Vec<String> = args.iter().map(CommandArg::prepare).collect();
    let f = temp_file(graph)?;
    let child = {
        let path = f.into_temp_path();
        let mut command = Command::new("dot");
        command.args(args).arg(&*path);
        command.stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped());
        command.spawn()?
    };
    let o = child.wait_with_output()?;
    if o.status.success() { Ok(o.stdout) } else { Err(io::Error::new(ErrorKind::Other, String::from_utf8_lossy(&o.stderr).to_string())) }
''')]),
('m-spawn-twice','C20',[(F,DO,'''    let mut command = Command::new("dot");
    command.args(args).arg(input);
    command.stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped());
    match command.spawn() {
        Ok(c) => c.wait_with_output(),
        Err(_) => command.spawn()?.wait_with_output(),
    }
''')]),
('m-wait-ignored','C20',[(F,DO,'''    let mut command = Command::new("dot");
    command.args(args).arg(input);
    command.stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped());
    let c = command.spawn()?;
    Ok(c.wait_with_output().unwrap_or(Output { status: Default::default(), stdout: vec![], stderr: vec![] }))
''')]),
('m-buf-noflush','C21',[(F,TF,'''    let file = NamedTempFile::new()?;
    let mut out = io::BufWriter::new(&file);
    out.write_all(ctx.as_bytes())?;
    drop(out);
    Ok(file)
''')]),
('m-buf-flushlost','C20',[(F,TF,'''    let file = NamedTempFile::new()?;
    let mut out = io::BufWriter::new(&file);
    out.write_all(ctx.as_bytes())?;
    let _ = out.flush();
    drop(out);
    Ok(file)
''')]),
('m-copy-lost','C20',[(F,TF,'''    let mut file = NamedTempFile::new()?;
    let _ = io::copy(&mut ctx.as_bytes(), &mut file);
    Ok(file)
''')]),
('m-builder-keep','C21',[(F,TF,'''    let mut file = tempfile::Builder::new().disable_cleanup(true).tempfile()?;
    file.write_all(ctx.as_bytes()).map(|_x| file)
''')]),
]
