//! Stand-in for tower: nothing is layered.
#[derive(Default)]
pub struct ServiceBuilder;
impl ServiceBuilder {
    pub fn new() -> Self {
        ServiceBuilder
    }
    pub fn layer<T>(self, _l: T) -> Self {
        self
    }
}
