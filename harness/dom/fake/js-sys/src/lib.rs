//! A stand-in for `js-sys`, see the one for `wasm-bindgen`.

use std::cell::RefCell;

use wasm_bindgen::{js_class, JsCast, JsValue, Obj};

js_class!(Object => JsValue);
js_class!(Function => Object: Object);
js_class!(Array => Object: Object);
js_class!(Error => Object: Object);

impl Object {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Object {
        JsValue::from_obj(Obj::new(&["Object"], Box::new(()))).unchecked_into()
    }
}

impl Function {
    pub fn call0(&self, _this: &JsValue) -> Result<JsValue, JsValue> {
        Ok(wasm_bindgen::call_function(self.as_ref(), &[]))
    }

    pub fn call1(&self, _this: &JsValue, a: &JsValue) -> Result<JsValue, JsValue> {
        Ok(wasm_bindgen::call_function(self.as_ref(), &[a.clone()]))
    }
}

struct Items(RefCell<Vec<JsValue>>);

impl Array {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Array {
        Array::of(Vec::new())
    }

    pub fn of(items: Vec<JsValue>) -> Array {
        JsValue::from_obj(Obj::new(
            &["Array", "Object"],
            Box::new(Items(RefCell::new(items))),
        ))
        .unchecked_into()
    }

    /// `Array.from` over what has a list of items.
    pub fn from(v: &JsValue) -> Array {
        let items = v
            .obj()
            .and_then(|o| {
                o.data
                    .downcast_ref::<Vec<JsValue>>()
                    .cloned()
                    .or_else(|| o.data.downcast_ref::<Items>().map(|i| i.0.borrow().clone()))
            })
            .unwrap_or_default();
        Array::of(items)
    }

    fn items(&self) -> &Items {
        let v: &JsValue = self.as_ref();
        v.obj().and_then(|o| o.data.downcast_ref()).expect("an array")
    }

    pub fn length(&self) -> u32 {
        self.items().0.borrow().len() as u32
    }

    pub fn get(&self, index: u32) -> JsValue {
        self.items().0.borrow().get(index as usize).cloned().unwrap_or_default()
    }

    pub fn push(&self, v: &JsValue) -> u32 {
        self.items().0.borrow_mut().push(v.clone());
        self.length()
    }

    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.to_vec().into_iter()
    }

    pub fn to_vec(&self) -> Vec<JsValue> {
        self.items().0.borrow().clone()
    }
}

impl Error {
    pub fn new(message: &str) -> Error {
        let o = Obj::new(&["Error", "Object"], Box::new(()));
        o.props.borrow_mut().insert("message".into(), JsValue::from_str(message));
        JsValue::from_obj(o).unchecked_into()
    }

    pub fn message(&self) -> String {
        Reflect::get(self.as_ref(), &"message".into())
            .ok()
            .and_then(|m| m.as_string())
            .unwrap_or_default()
    }
}

#[allow(non_snake_case)]
pub mod Reflect {
    use super::*;

    pub fn get(target: &JsValue, key: &JsValue) -> Result<JsValue, JsValue> {
        let (Some(o), Some(k)) = (target.obj(), key.as_string()) else {
            return Err(Error::new("Reflect.get called on non-object").into());
        };
        Ok(o.props.borrow().get(&k).cloned().unwrap_or_default())
    }

    pub fn set(target: &JsValue, key: &JsValue, value: &JsValue) -> Result<bool, JsValue> {
        let (Some(o), Some(k)) = (target.obj(), key.as_string()) else {
            return Err(Error::new("Reflect.set called on non-object").into());
        };
        o.props.borrow_mut().insert(k, value.clone());
        Ok(true)
    }
}
