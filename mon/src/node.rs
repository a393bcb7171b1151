//! A line-by-line conversation with a node process running one of the oracles.

use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub struct Node {
    child: Child,
    tx: ChildStdin,
    rx: BufReader<ChildStdout>,
}

impl Node {
    pub fn new(dir: &str, mode: &str, repo: &str) -> Node {
        let mut child = Command::new("node")
            .arg("--stack-size=6000")
            .arg("--single-threaded")
            .arg("--max-semi-space-size=32")
            .arg("--max-old-space-size=3000")
            .arg(format!("{}/serve.js", dir))
            .arg(mode)
            .arg(repo)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .unwrap_or_else(|e| {
                eprintln!("HARNESS-ERROR: cannot start node: {}", e);
                std::process::exit(2)
            });
        let tx = child.stdin.take().unwrap();
        let rx = BufReader::new(child.stdout.take().unwrap());
        Node { child, tx, rx }
    }
    pub fn ask(&mut self, line: &str) -> serde_json::Value {
        debug_assert!(!line.contains('\n'));
        let mut out = String::new();
        let r = self.tx.write_all(line.as_bytes()).and_then(|_| self.tx.write_all(b"\n")).and_then(|_| self.tx.flush()).and_then(|_| self.rx.read_line(&mut out));
        let v: Option<serde_json::Value> = match r {
            Ok(n) if n > 0 => serde_json::from_str(&out).ok(),
            _ => None,
        };
        match v {
            Some(v) if v.get("oracle_error").is_none() => v,
            v => {
                eprintln!("HARNESS-ERROR: node oracle failed: {:?} {:?}", v, out.chars().take(400).collect::<String>());
                std::process::exit(2)
            }
        }
    }
}

impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
