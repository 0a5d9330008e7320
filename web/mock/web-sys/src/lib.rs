//! Stand-in: the binding touches nothing of the page but its console.
pub mod console {
    use wasm_bindgen::JsValue;
    pub fn log_1(_: &JsValue) {
        wasm_bindgen::imported_call()
    }
    pub fn error_1(_: &JsValue) {
        wasm_bindgen::imported_call()
    }
}
