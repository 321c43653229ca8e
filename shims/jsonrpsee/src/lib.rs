//! Stand-in for jsonrpsee (not available offline): methods take positional JSON parameters and give
//! a JSON result or an error code, in process ([`RpcModule::call`]) or over the control channel.
use serde_json::Value;
use std::collections::HashMap;
use std::future::Future;
use std::marker::PhantomData;
use std::pin::Pin;
use std::sync::Arc;
use types::error::{ErrorCode, ErrorObjectOwned};

pub mod proc_macros {
    pub use jsonrpsee_macros::rpc;
}

pub mod types {
    pub mod error {
        #[derive(Debug, PartialEq, Eq, Copy, Clone)]
        pub enum ErrorCode {
            ParseError,
            OversizedRequest,
            InvalidRequest,
            MethodNotFound,
            ServerIsBusy,
            InvalidParams,
            InternalError,
            ServerError(i32),
        }
        impl ErrorCode {
            pub const fn code(&self) -> i32 {
                match *self {
                    ErrorCode::ParseError => -32700,
                    ErrorCode::OversizedRequest => -32007,
                    ErrorCode::InvalidRequest => -32600,
                    ErrorCode::MethodNotFound => -32601,
                    ErrorCode::ServerIsBusy => -32009,
                    ErrorCode::InvalidParams => -32602,
                    ErrorCode::InternalError => -32603,
                    ErrorCode::ServerError(c) => c,
                }
            }
        }
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct ErrorObject<'a> {
            pub code: ErrorCode,
            pub message: std::borrow::Cow<'a, str>,
        }
        pub type ErrorObjectOwned = ErrorObject<'static>;
        impl ErrorObject<'static> {
            pub fn owned<S: serde::Serialize>(code: i32, message: impl Into<String>, _data: Option<S>) -> Self {
                ErrorObject { code: ErrorCode::ServerError(code), message: message.into().into() }
            }
            pub fn code(&self) -> i32 {
                self.code.code()
            }
        }
        impl From<ErrorCode> for ErrorObject<'static> {
            fn from(code: ErrorCode) -> Self {
                ErrorObject { code, message: format!("{code:?}").into() }
            }
        }
    }
    pub use error::{ErrorCode, ErrorObject, ErrorObjectOwned};
}

pub mod core {
    pub use async_trait::async_trait;
    pub type RpcResult<T> = Result<T, crate::types::error::ErrorObjectOwned>;
}

pub fn to_value<T: serde::Serialize>(v: &T) -> Value {
    serde_json::to_value(v).expect("serializable result")
}

pub struct Params(std::vec::IntoIter<Value>);
impl Params {
    pub fn next<T: serde::de::DeserializeOwned>(&mut self) -> Result<T, ErrorObjectOwned> {
        let v = self.0.next().unwrap_or(Value::Null);
        serde_json::from_value(v).map_err(|_| ErrorCode::InvalidParams.into())
    }
}

type Fut = Pin<Box<dyn Future<Output = Result<Value, ErrorObjectOwned>> + Send>>;
type Method = Arc<dyn Fn(Params) -> Fut + Send + Sync>;

#[derive(Clone)]
pub struct RpcModule<C>(HashMap<String, Method>, PhantomData<fn() -> C>);

impl<C> RpcModule<C> {
    pub fn empty() -> Self {
        RpcModule(HashMap::new(), PhantomData)
    }
    pub fn register(&mut self, name: &str, f: impl Fn(Params) -> Fut + Send + Sync + 'static) {
        self.0.insert(name.into(), Arc::new(f));
    }
    pub async fn call(&self, method: &str, params: Vec<Value>) -> Result<Value, ErrorObjectOwned> {
        match self.0.get(method) {
            Some(f) => f(Params(params.into_iter())).await,
            None => Err(ErrorCode::MethodNotFound.into()),
        }
    }
}

pub mod server {
    use super::*;
    #[derive(Default)]
    pub struct ServerBuilder;
    impl ServerBuilder {
        pub fn set_middleware<T>(self, _m: T) -> Self {
            self
        }
        pub fn max_connections(self, _n: u32) -> Self {
            self
        }
        pub fn max_request_body_size(self, _n: u32) -> Self {
            self
        }
        pub fn max_response_body_size(self, _n: u32) -> Self {
            self
        }
        pub fn http_only(self) -> Self {
            self
        }
        pub async fn build<A>(self, _addr: A) -> std::io::Result<Server> {
            Ok(Server)
        }
    }
    pub struct Server;
    impl Server {
        pub fn start<C: 'static>(self, module: RpcModule<C>) -> ServerHandle {
            let mut calls = simctl::calls();
            let jh = tokio::spawn(async move {
                while let Some(c) = calls.recv().await {
                    let method = c["method"].as_str().unwrap_or_default().to_string();
                    let params = c["params"].as_array().cloned().unwrap_or_default();
                    let r = module.call(&method, params).await;
                    simctl::answer(&match r {
                        Ok(v) => serde_json::json!({ "result": v }),
                        Err(e) => serde_json::json!({ "error": e.code() }),
                    });
                }
            });
            ServerHandle(jh)
        }
    }
    pub struct ServerHandle(tokio::task::JoinHandle<()>);
    impl ServerHandle {
        pub async fn stopped(self) {
            let _ = self.0.await;
        }
    }
}
