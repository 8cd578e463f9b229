#[derive(Debug, Default, Clone)]
pub struct TimingTree(String);
impl TimingTree {
    pub fn new(root_name: &str, _level: impl core::fmt::Debug) -> Self { Self(root_name.into()) }
    pub fn push(&mut self, _ctx: &str, _level: impl core::fmt::Debug) {}
    pub fn pop(&mut self) {}
    pub fn print(&self) {}
    pub fn filter(&self, _d: core::time::Duration) -> Self { self.clone() }
}
