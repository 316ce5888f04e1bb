//! What the files shared with ../../harness need; nothing runs under the scheduler of threads here.
pub mod mc {
    pub fn solo<T>(f: impl FnOnce() -> T) -> T {
        f()
    }
    pub fn panic_message(e: &(dyn std::any::Any + Send)) -> String {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        }
    }
}
