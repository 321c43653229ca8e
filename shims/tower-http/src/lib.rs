//! Stand-in for tower-http: settings are accepted and ignored.
pub mod cors {
    pub struct Any;
    #[derive(Default, Clone)]
    pub struct CorsLayer;
    impl CorsLayer {
        pub fn new() -> Self {
            CorsLayer
        }
        pub fn max_age<T>(self, _t: T) -> Self {
            self
        }
        pub fn allow_methods<T>(self, _t: T) -> Self {
            self
        }
        pub fn allow_origin<T>(self, _t: T) -> Self {
            self
        }
        pub fn allow_headers<T>(self, _t: T) -> Self {
            self
        }
    }
}
