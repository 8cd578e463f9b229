pub mod noop {
    #[derive(Copy, Clone, Debug)]
    pub struct NoopGate;
}
