fn main() {
  match std::env::args().nth(1).as_deref() {
    Some("C02") => mcsyntax::roundtrip::run(mcsyntax::roundtrip::Via::Ast),
    Some("C11") => mcsyntax::roundtrip::run(mcsyntax::roundtrip::Via::Hir),
    Some("C06") => mcsyntax::minify::run(),
    x => {
      eprintln!("unknown check {x:?}");
      std::process::exit(3);
    }
  }
}
