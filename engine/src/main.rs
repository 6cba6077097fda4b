mod exec;
mod expr;
mod ir;
mod mem;
mod z3;
mod drive;

fn main() {
    // deep term recursion needs a large stack
    let t = std::thread::Builder::new().stack_size(4 << 30).spawn(drive::main).unwrap();
    let code = t.join().unwrap_or(101);
    std::process::exit(code);
}
