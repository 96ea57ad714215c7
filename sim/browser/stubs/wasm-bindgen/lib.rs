pub use jsstub::{JsCast, JsValue};
pub use wasm_bindgen_macro::wasm_bindgen;
pub mod prelude {
    pub use crate::{wasm_bindgen, JsCast, JsValue};
}
