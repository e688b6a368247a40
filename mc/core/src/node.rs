//! Line-based JSON client for a node.js oracle process.
use serde_json::Value;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub struct NodeWorker {
  child: Child,
  stdin: Option<ChildStdin>,
  out: BufReader<ChildStdout>,
  script: String,
  calls: u32,
}

/// V8 never frees some of what contexts and modules hold: start afresh now and then.
const LIFETIME: u32 = 60;

impl NodeWorker {
  pub fn new(script: &str) -> NodeWorker {
    let mut child = Command::new("node")
      .arg("--experimental-vm-modules")
      .arg("--no-warnings")
      .arg("--stack-size=900")
      .arg(crate::verif_root().join("mc/js").join(script))
      .env("NODE_PATH", "/opt/veriftools/node/node_modules")
      .stdin(Stdio::piped())
      .stdout(Stdio::piped())
      .spawn()
      .expect("node");
    let stdin = child.stdin.take();
    let out = BufReader::new(child.stdout.take().unwrap());
    NodeWorker { child, stdin, out, script: script.to_string(), calls: 0 }
  }
  pub fn call(&mut self, v: &Value) -> Value {
    self.calls += 1;
    if self.calls > LIFETIME {
      *self = NodeWorker::new(&self.script.clone());
    }
    let mut s = serde_json::to_string(v).unwrap();
    s.push('\n');
    let r = self.stdin.as_mut().unwrap().write_all(s.as_bytes());
    let mut line = String::new();
    if r.is_err() || self.out.read_line(&mut line).unwrap_or(0) == 0 {
      eprintln!("node oracle died");
      std::process::exit(3);
    }
    serde_json::from_str(&line).unwrap_or_else(|e| {
      eprintln!("node oracle: bad reply {e}: {line}");
      std::process::exit(3);
    })
  }
}
impl Drop for NodeWorker {
  fn drop(&mut self) {
    self.stdin.take();
    let _ = self.child.kill();
    let _ = self.child.wait();
  }
}
