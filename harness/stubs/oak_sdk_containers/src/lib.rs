//! Stand-in for Oak's `oak_sdk_containers`.
use oak_session::session_binding::SessionBinder;
pub struct InstanceSessionBinder(u64);
impl InstanceSessionBinder {
    pub fn create(channel: &tonic::transport::channel::Channel) -> Self {
        Self(channel.binding_secret)
    }
}
impl SessionBinder for InstanceSessionBinder {
    fn bind(&self, bound_data: &[u8]) -> Vec<u8> {
        oak_crypto::ideal::sign(self.0, bound_data)
    }
}
