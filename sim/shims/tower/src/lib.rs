//! Stand-in: middleware is not part of what is checked.
pub struct Identity;
pub struct ServiceBuilder<L>(pub L);
impl Default for ServiceBuilder<Identity> { fn default() -> Self { Self::new() } }
impl ServiceBuilder<Identity> { pub fn new() -> Self { ServiceBuilder(Identity) } }
impl<L> ServiceBuilder<L> { pub fn layer<T>(self, layer: T) -> ServiceBuilder<(L, T)> { ServiceBuilder((self.0, layer)) } }
