use crate::run::AnyProp;

pub mod bits;
pub mod carrier;
pub mod clutter;
pub mod colour;
pub mod debug;
pub mod extract;
pub mod image;
pub mod locate;
pub mod logs;
pub mod matrix;
pub mod photo;
pub mod pipeline;
pub mod prepare;
pub mod scene;
pub mod values;

pub fn all() -> Vec<Box<dyn AnyProp>> {
    vec![
        Box::new(matrix::C01),
        Box::new(matrix::C02),
        Box::new(matrix::C03),
        Box::new(matrix::C04),
        Box::new(matrix::C05),
        Box::new(matrix::C06),
        Box::new(scene::C07),
        Box::new(image::C08),
        Box::new(image::C09),
        Box::new(image::C10),
        Box::new(image::C11),
        Box::new(extract::C12),
        Box::new(prepare::C13),
        Box::new(colour::C14),
        Box::new(pipeline::C15),
        Box::new(pipeline::C17),
        Box::new(debug::C18),
        Box::new(image::C19),
        Box::new(scene::C20),
        Box::new(bits::C16),
        Box::new(photo::C21),
        Box::new(photo::C22),
        Box::new(locate::C23),
        Box::new(locate::C24),
        Box::new(logs::C25),
        Box::new(clutter::C26),
        Box::new(carrier::C27),
        Box::new(values::C28),
    ]
}
