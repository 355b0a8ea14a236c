// Reads names, one per line, and writes their snake_case.
use std::io::BufRead;
fn main() {
    for l in std::io::stdin().lock().lines() {
        println!("{}", jst::casing::to_snake_case(&l.unwrap()));
    }
}
