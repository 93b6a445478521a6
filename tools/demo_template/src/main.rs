mod io;
fn main() {}
