fn main(){println!("hi")}
