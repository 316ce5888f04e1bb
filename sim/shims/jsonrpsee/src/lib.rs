//! Stand-in for the server side of jsonrpsee: requests come from the script (or from the check directly)
//! as JSON, answers are given as JSON.
use serde_json::Value;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;

pub mod proc_macros {
    pub use jsonrpsee_macros::rpc;
}
pub mod types {
    pub use error::{ErrorCode, ErrorObject, ErrorObjectOwned};
    pub mod error {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub enum ErrorCode {
            ParseError,
            OversizedRequest,
            InvalidRequest,
            MethodNotFound,
            ServerIsBusy,
            InvalidParams,
            InternalError,
            ServerError(i32),
        }
        impl ErrorCode {
            pub const fn code(&self) -> i32 {
                match *self {
                    ErrorCode::ParseError => -32700,
                    ErrorCode::OversizedRequest => -32007,
                    ErrorCode::InvalidRequest => -32600,
                    ErrorCode::MethodNotFound => -32601,
                    ErrorCode::ServerIsBusy => -32009,
                    ErrorCode::InvalidParams => -32602,
                    ErrorCode::InternalError => -32603,
                    ErrorCode::ServerError(x) => x,
                }
            }
        }
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct ErrorObject<'a> {
            pub code: i32,
            pub message: std::borrow::Cow<'a, str>,
        }
        pub type ErrorObjectOwned = ErrorObject<'static>;
        impl<'a> ErrorObject<'a> {
            pub fn owned<S: serde::Serialize>(code: i32, message: impl Into<String>, _data: Option<S>) -> ErrorObject<'static> {
                ErrorObject { code, message: message.into().into() }
            }
            pub fn code(&self) -> i32 {
                self.code
            }
        }
        impl From<ErrorCode> for ErrorObject<'_> {
            fn from(c: ErrorCode) -> Self {
                ErrorObject { code: c.code(), message: format!("{c:?}").into() }
            }
        }
    }
}
pub mod core {
    pub use async_trait::async_trait;
    #[derive(Debug)]
    pub enum Error {
        Call(crate::types::ErrorObjectOwned),
        Custom(String),
    }
    impl Error {
        pub fn code(&self) -> i32 {
            match self {
                Error::Call(x) => x.code,
                Error::Custom(_) => -32603,
            }
        }
    }
    impl From<crate::types::ErrorCode> for Error {
        fn from(c: crate::types::ErrorCode) -> Self {
            Error::Call(c.into())
        }
    }
    impl From<crate::types::ErrorObjectOwned> for Error {
        fn from(c: crate::types::ErrorObjectOwned) -> Self {
            Error::Call(c)
        }
    }
    pub type RpcResult<T> = Result<T, Error>;
}

pub type Call<T> = Arc<dyn Fn(Arc<T>, Value) -> Pin<Box<dyn Future<Output = Result<Value, i32>> + Send>> + Send + Sync>;

pub struct RpcModule<T> {
    this: Arc<T>,
    methods: BTreeMap<String, Call<T>>,
}
impl<T: Send + Sync + 'static> RpcModule<T> {
    pub fn new(this: T) -> Self {
        RpcModule { this: Arc::new(this), methods: BTreeMap::new() }
    }
    #[doc(hidden)]
    pub fn add(&mut self, name: &str, call: Call<T>) {
        self.methods.insert(name.to_string(), call);
    }
    pub async fn call(&self, name: &str, params: Value) -> Result<Value, i32> {
        match self.methods.get(name) {
            None => Err(types::ErrorCode::MethodNotFound.code()),
            Some(m) => m(self.this.clone(), params).await,
        }
    }
}
pub trait Module: Send + Sync + 'static {
    fn dispatch<'a>(&'a self, name: &'a str, params: Value) -> Pin<Box<dyn Future<Output = Result<Value, i32>> + Send + 'a>>;
}
impl<T: Send + Sync + 'static> Module for RpcModule<T> {
    fn dispatch<'a>(&'a self, name: &'a str, params: Value) -> Pin<Box<dyn Future<Output = Result<Value, i32>> + Send + 'a>> {
        Box::pin(self.call(name, params))
    }
}

#[doc(hidden)]
pub mod __sim {
    use super::*;
    pub type Json = Value;
    pub fn parameter<T: serde::de::DeserializeOwned>(params: &Value, position: usize, snake: &str, camel: &str) -> Result<T, i32> {
        let v = match params {
            Value::Array(a) => a.get(position).cloned(),
            Value::Object(o) => o.get(snake).or_else(|| o.get(camel)).cloned(),
            _ => None,
        };
        serde_json::from_value(v.unwrap_or(Value::Null)).map_err(|_| types::ErrorCode::InvalidParams.code())
    }
    pub fn result<T: serde::Serialize>(r: Result<T, core::Error>) -> Result<Value, i32> {
        match r {
            Ok(x) => serde_json::to_value(x).map_err(|_| types::ErrorCode::InternalError.code()),
            Err(e) => Err(e.code()),
        }
    }
}

pub mod server {
    use super::*;
    #[derive(Default)]
    pub struct ServerBuilder;
    impl ServerBuilder {
        pub fn new() -> Self { ServerBuilder }
        pub fn set_middleware<T>(self, _: T) -> Self { self }
        pub fn set_http_middleware<T>(self, _: T) -> Self { self }
        pub fn max_connections(self, _: u32) -> Self { self }
        pub fn max_request_body_size(self, _: u32) -> Self { self }
        pub fn max_response_body_size(self, _: u32) -> Self { self }
        pub fn http_only(self) -> Self { self }
        pub fn ws_only(self) -> Self { self }
        pub async fn build<A>(self, _address: A) -> std::io::Result<Server> { Ok(Server) }
    }
    pub struct Server;
    impl Server {
        pub fn start<M: Module>(self, module: M) -> ServerHandle {
            ServerHandle { module: Arc::new(module) }
        }
    }
    pub struct ServerHandle {
        module: Arc<dyn Module>,
    }
    impl ServerHandle {
        /// the requests of the script are served when all of its messages are handled, then the server stops
        pub async fn stopped(self) {
            let Some(ctl) = simctl::ctl() else { return };
            let mut rounds = 0;
            while !ctl.drained() {
                tokio::time::sleep(std::time::Duration::from_micros(200)).await;
                rounds += 1;
                if rounds > 100_000 {
                    eprintln!("simctl: the messages are not read");
                    std::process::exit(77);
                }
            }
            let mut answers = vec![];
            for (name, params) in &ctl.script.requests {
                answers.push(match self.module.dispatch(name, params.clone()).await {
                    Ok(v) => serde_json::json!({ "result": v }),
                    Err(code) => serde_json::json!({ "error": code }),
                });
            }
            let text = serde_json::to_string(&answers).unwrap();
            if std::fs::write(&ctl.script.out, text).is_err() {
                std::process::exit(78);
            }
        }
        pub fn stop(&self) -> Result<(), ()> { Ok(()) }
    }
}
