//! Stand-in for `tracing-subscriber`, which is not available offline.
#[derive(Debug, Default)]
pub struct FmtSubscriber;
impl FmtSubscriber {
    pub fn new() -> Self {
        Self
    }
}
