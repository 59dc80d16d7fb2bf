//! Minimal JSON writer.
pub fn s(x: &str) -> String {
    let mut o = String::from("\"");
    for c in x.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn arr(xs: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", xs.into_iter().collect::<Vec<_>>().join(","))
}
#[derive(Default)]
pub struct Obj(Vec<String>);
impl Obj {
    pub fn new() -> Self {
        Self(vec![])
    }
    pub fn raw(mut self, k: &str, v: String) -> Self {
        self.0.push(format!("{}:{}", s(k), v));
        self
    }
    pub fn str(self, k: &str, v: &str) -> Self {
        self.raw(k, s(v))
    }
    pub fn num(self, k: &str, v: impl std::fmt::Display) -> Self {
        self.raw(k, v.to_string())
    }
    pub fn end(self) -> String {
        format!("{{{}}}", self.0.join(","))
    }
}
