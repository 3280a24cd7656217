//! Stands in for rustfmt while the checks run: copies the generated code unchanged.
fn main() { let _ = std::io::copy(&mut std::io::stdin(), &mut std::io::stdout()); }
