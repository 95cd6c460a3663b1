pub mod doc;
pub mod judge;
pub mod node;
pub mod reference;
pub mod runner;
pub mod src_choice;
pub mod text;
