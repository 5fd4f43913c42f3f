pub fn get() -> usize { 2 }
pub fn get_physical() -> usize { 2 }
