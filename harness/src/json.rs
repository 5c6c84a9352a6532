//! A writer for the small part of JSON the traces need

pub struct Json(pub String);

impl Json {
    pub fn new() -> Self {
        Json(String::new())
    }
    fn sep(&mut self) {
        if !matches!(
            self.0.as_bytes().last(),
            None | Some(b'{') | Some(b'[') | Some(b':')
        ) {
            self.0.push(',');
        }
    }
    pub fn open(&mut self, c: char) {
        self.sep();
        self.0.push(c);
    }
    pub fn close(&mut self, c: char) {
        self.0.push(c);
    }
    pub fn key(&mut self, k: &str) {
        self.sep();
        self.0.push('"');
        self.0.push_str(k);
        self.0.push_str("\":");
    }
    pub fn int(&mut self, n: usize) {
        self.sep();
        // TLC integers are 32 bits wide
        self.0.push_str(&n.min(2_000_000_000).to_string());
    }
    pub fn lit(&mut self, s: &str) {
        self.sep();
        self.0.push('"');
        self.0.push_str(s);
        self.0.push('"');
    }
    /// A string as a sequence of code points
    pub fn cps(&mut self, s: &str) {
        self.open('[');
        for c in s.chars() {
            self.int(c as usize);
        }
        self.close(']');
    }
    pub fn k_int(&mut self, k: &str, n: usize) {
        self.key(k);
        self.int(n);
    }
    pub fn k_lit(&mut self, k: &str, s: &str) {
        self.key(k);
        self.lit(s);
    }
    pub fn k_cps(&mut self, k: &str, s: &str) {
        self.key(k);
        self.cps(s);
    }
}
