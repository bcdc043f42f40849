use crate::fw::Property;

pub mod energy;
pub mod exact;
pub mod history;
pub mod large;
pub mod models;
pub mod ops;
pub mod own;
pub mod sa;

pub fn all() -> Vec<Property> {
	vec![
		#[cfg(feature = "C01")]
		energy::c01(),
		#[cfg(feature = "C02")]
		energy::c02(),
		#[cfg(feature = "C03")]
		energy::c03(),
		#[cfg(feature = "C05")]
		energy::c05(),
		#[cfg(feature = "C19")]
		energy::c19(),
		#[cfg(feature = "C04")]
		history::c04(),
		#[cfg(feature = "C06")]
		history::c06(),
		#[cfg(feature = "C23")]
		history::c23(),
		#[cfg(feature = "C07")]
		ops::c07(),
		#[cfg(feature = "C08")]
		ops::c08(),
		#[cfg(feature = "C09")]
		models::c09(),
		#[cfg(feature = "C10")]
		models::c10(),
		#[cfg(feature = "C11")]
		models::c11(),
		#[cfg(feature = "C12")]
		models::c12(),
		#[cfg(feature = "C13")]
		models::c13(),
		#[cfg(feature = "C14")]
		models::c14(),
		#[cfg(feature = "C21")]
		models::c21(),
		#[cfg(feature = "C24")]
		own::c24(),
		#[cfg(feature = "C15")]
		sa::c15(),
		#[cfg(feature = "C16")]
		sa::c16(),
		#[cfg(feature = "C17")]
		sa::c17(),
		#[cfg(feature = "C18")]
		sa::c18(),
		#[cfg(feature = "C22")]
		sa::c22(),
	]
}
