pub mod css;
pub mod gen;
pub mod html;
pub mod model;
pub mod run;
pub mod soup;
