// Reads sequences of conversions (one process, one after the other) and writes their results.
use serde_json::{json, Value};
fn main() {
    let input: Value = serde_json::from_reader(std::io::stdin()).unwrap();
    let mut out = Vec::new();
    for c in input.as_array().unwrap() {
        let context: jst::Context = serde_json::from_value(c["context"].clone()).unwrap();
        let schema = c["schema"].clone();
        let avro = c["format"] == "avro";
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if avro { jst::convert_avro(&schema, context) } else { jst::convert_bigquery(&schema, context) }
        }));
        out.push(match r { Ok(v) => json!({"ok": v}), Err(_) => json!("aborted") });
    }
    println!("{}", Value::Array(out));
}
