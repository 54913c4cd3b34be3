use std::io::{BufRead, Write};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let r = std::panic::catch_unwind(|| busy_beaver::validator::vp::command(&line));
        let s = match r {
            Ok(Ok(x)) => format!("ok\t{}", x),
            Ok(Err(x)) => format!("err\t{}", x),
            Err(p) => format!("panic\t{}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
        };
        writeln!(out, "{}", s.replace('\n', " ")).unwrap();
        out.flush().unwrap();
    }
}
