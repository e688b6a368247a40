fn main() {
  match std::env::args().nth(1).as_deref() {
    Some("C14") => mcopt::analyses::run(),
    Some("C35") => mcopt::consts::run(),
    Some("C15") => mcopt::il::run(),
    Some("C13") => mcopt::decomp::run(),
    x => {
      eprintln!("unknown check {x:?}");
      std::process::exit(3);
    }
  }
}
