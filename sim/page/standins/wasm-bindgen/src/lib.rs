//! Stand-in for wasm-bindgen: a `JsValue` is the JavaScript value as a tree.
pub mod prelude {
    pub use crate::JsValue;
    pub use wasm_bindgen_macro::wasm_bindgen;
}

/// A JavaScript value. A `Map` is `{"$map": [[key, value], ...]}`, everything
/// else is the JSON value; `undefined` is null.
#[derive(Clone, Debug, PartialEq)]
pub struct JsValue(pub serde_json::Value);

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue(serde_json::Value::Null);
    pub const NULL: JsValue = JsValue(serde_json::Value::Null);
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> JsValue {
        JsValue(serde_json::Value::String(s.into()))
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        JsValue::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        JsValue(serde_json::Value::String(s))
    }
}
