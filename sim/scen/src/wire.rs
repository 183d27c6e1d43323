//! Plain byte encoding of what a simulated process reports to its checker.
#[derive(Default)]
pub struct W(pub Vec<u8>);
impl W {
    pub fn n(&mut self, v: u64) -> &mut Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn b(&mut self, v: &[u8]) -> &mut Self {
        self.n(v.len() as u64);
        self.0.extend_from_slice(v);
        self
    }
    pub fn s(&mut self, v: &str) -> &mut Self {
        self.b(v.as_bytes())
    }
}
pub struct R<'a>(pub &'a [u8]);
impl<'a> R<'a> {
    pub fn done(&self) -> bool {
        self.0.is_empty()
    }
    pub fn n(&mut self) -> u64 {
        let (a, b) = self.0.split_at(8);
        self.0 = b;
        u64::from_le_bytes(a.try_into().unwrap())
    }
    pub fn b(&mut self) -> &'a [u8] {
        let n = self.n() as usize;
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    pub fn s(&mut self) -> String {
        String::from_utf8_lossy(self.b()).into_owned()
    }
}
